//! Replays scripts of issue / verify / validate calls on the real System, with the
//! in-memory cache and the embedded master or with their counterparts that use Redis,
//! and records what the callers see.
//!
//! usage: captcha SCRIPTS TRACE
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};

use actix::prelude::*;
use harness::*;
use harness::fakeredis::Server;
use libmcaptcha::cache::hashcache::HashCache;
use libmcaptcha::cache::redis::RedisCache;
use libmcaptcha::cache::Save;
use libmcaptcha::master::redis::master::Master as RedisMaster;
use libmcaptcha::master::Master as IsMaster;
use libmcaptcha::redis::RedisConfig;
use libmcaptcha::cache::messages::VerifyCaptchaResult;
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::master::embedded::master::Master;
use libmcaptcha::master::messages::{AddSite, RemoveCaptcha};
use libmcaptcha::pow::{PoWConfig, Work};
use libmcaptcha::system::{System as Captcha, SystemBuilder};

type Sys = Captcha<HashCache, Master>;

/// A system, whatever it is made of.
type Call<T> = Pin<Box<dyn Future<Output = T>>>;
trait Api {
    fn add(&self, m: AddSite) -> Call<()>;
    fn remove(&self, n: String) -> Call<()>;
    fn get_pow(self: Rc<Self>, site: String) -> Call<Out>;
    fn verify(self: Rc<Self>, work: Work, ip: String) -> Call<Out>;
    fn validate(self: Rc<Self>, v: VerifyCaptchaResult) -> Call<Out>;
}

macro_rules! api {
    ($name:ident, $cache:ty, $master:ty) => {
        struct $name(Captcha<$cache, $master>, Addr<$master>);
        impl Api for $name {
            fn add(&self, m: AddSite) -> Call<()> {
                let r = self.1.send(m);
                Box::pin(async move {
                    let _ = r.await.expect("master is alive").await;
                })
            }
            fn remove(&self, n: String) -> Call<()> {
                let r = self.1.send(RemoveCaptcha(n));
                Box::pin(async move {
                    let _ = r.await.expect("master is alive").await;
                })
            }
            fn get_pow(self: Rc<Self>, site: String) -> Call<Out> {
                Box::pin(async move { Out::Issue(self.0.get_pow(site).await) })
            }
            fn verify(self: Rc<Self>, work: Work, ip: String) -> Call<Out> {
                Box::pin(async move { Out::Verify(self.0.verify_pow(work, ip).await) })
            }
            fn validate(self: Rc<Self>, v: VerifyCaptchaResult) -> Call<Out> {
                Box::pin(async move { Out::Validate(self.0.validate_verification_tokens(v).await) })
            }
        }
    };
}
api!(Embedded, HashCache, Master);
api!(Redis, RedisCache, RedisMaster);
api!(Mixed, HashCache, RedisMaster);
api!(Mixed2, RedisCache, Master);

fn build<T: Save, X: IsMaster>(sc: &Value, master: Addr<X>, cache: Addr<T>) -> Captcha<T, X>
where
    <T as Actor>::Context: actix::dev::ToEnvelope<T, libmcaptcha::cache::messages::CachePoW>
        + actix::dev::ToEnvelope<T, libmcaptcha::cache::messages::RetrivePoW>
        + actix::dev::ToEnvelope<T, libmcaptcha::cache::messages::CacheResult>
        + actix::dev::ToEnvelope<T, VerifyCaptchaResult>,
{
    SystemBuilder::default()
        .master(master)
        .cache(cache)
        .pow(pow_config(&s(&sc["salt"])))
        .runners(u(&sc["runners"]) as usize)
        .queue_length(u(&sc["qlen"]) as usize)
        .build()
}

enum Out {
    Issue(Result<Option<PoWConfig>, CaptchaError>),
    Verify(Result<(String, u32), CaptchaError>),
    Validate(Result<bool, CaptchaError>),
}

struct Slot {
    fut: Pin<Box<dyn Future<Output = Out>>>,
    /// settles seen since the first poll
    settled: bool,
}

#[derive(Clone)]
struct Issued {
    string: String,
    diff: u32,
    salt: String,
    deadline: u64,
}

fn res_name(e: &CaptchaError) -> &'static str {
    match e {
        CaptchaError::StringNotFound => "notfound",
        CaptchaError::MCaptchaKeyValidationFail => "key",
        CaptchaError::InsuffiencientDifficulty | CaptchaError::InvalidPoW => "insuff",
        CaptchaError::QueueFull => "full",
        _ => "err",
    }
}

/// Names for strings: equal strings get equal names.
#[derive(Default)]
struct Names(HashMap<String, String>, usize);
impl Names {
    fn get(&mut self, p: &str, v: &str) -> String {
        let n = &mut self.1;
        self.0
            .entry(v.to_string())
            .or_insert_with(|| {
                *n += 1;
                format!("{p}{n}")
            })
            .clone()
    }
}

/// Builds a work of the given kind for a challenge: (nonce, result).
fn make_work(kind: &str, ch: &Issued, other: Option<&Issued>, seed: u64) -> Option<(u64, String)> {
    let cfg = pow_config(&ch.salt);
    let thr = threshold(ch.diff);
    // a full search is affordable up to here
    let budget = if ch.diff > 3000 { 2000 } else { 60 * ch.diff as u64 + 100 };
    let from = seed % 1_000_000;
    let from = match seed >> 20 & 7 {
        0 => from + (1 << 32),
        1 => from + (1 << 53),
        2 => u64::MAX - from,
        3 => from.wrapping_sub(500_000) & 0xffff_ffff,
        _ => from,
    };
    let honest = || search(&cfg, &ch.string, from, thr, None, budget);
    let r = match kind {
        "good" => honest().map(|(n, s)| (n, s.to_string())),
        // as close below the threshold as can be found
        "near" => {
            if ch.diff == 1 {
                return None;
            }
            let lo = if ch.diff > 2 { threshold(ch.diff - 1) } else { 0 };
            search(&cfg, &ch.string, from, lo, Some(thr), budget.min(60_000))
                .or_else(|| search(&cfg, &ch.string, from, 0, Some(thr), 400))
                .map(|(n, s)| (n, s.to_string()))
        }
        // just below, just above the threshold: whatever it takes
        "below" if ch.diff == 1 => None,
        "below" => {
            let lo = if ch.diff > 2 { threshold(ch.diff - 1) } else { 0 };
            search(&cfg, &ch.string, from, lo, Some(thr), 8_000_000).map(|(n, s)| (n, s.to_string()))
        }
        "above" => {
            search(&cfg, &ch.string, from, thr, Some(threshold(ch.diff + 1)), 8_000_000).map(|(n, s)| (n, s.to_string()))
        }
        // however hard
        "grind" => search(&cfg, &ch.string, from, thr, None, 30_000_000).map(|(n, s)| (n, s.to_string())),
        // half way there
        "half" => {
            search(&cfg, &ch.string, from, threshold(ch.diff / 2), Some(thr), 30_000_000).map(|(n, s)| (n, s.to_string()))
        }
        // honest, but short of the mark
        "low" => search(&cfg, &ch.string, from, 0, Some(thr), 400).map(|(n, s)| (n, s.to_string())),
        "forged" => Some((from, u128::MAX.to_string())),
        "forgedthr" => Some((from, thr.to_string())),
        // an insufficient score dressed up
        "pad" => search(&cfg, &ch.string, from, 0, Some(thr), 400).map(|(n, s)| (n, format!("{s}0"))),
        "plus" => honest().map(|(n, s)| (n, format!("+{s}"))),
        "lead0" => honest().map(|(n, s)| (n, format!("0{s}"))),
        "space" => honest().map(|(n, s)| (n, format!("{s} "))),
        "trunc" => honest().map(|(n, s)| (n, s.to_string()[1..].to_string())),
        "nonce" => honest().map(|(n, s)| (n.wrapping_add(1), s.to_string())),
        "garbage" => Some((from, "not a number".into())),
        "empty" => Some((from, String::new())),
        "neg" => Some((from, "-1".into())),
        "other" => {
            let o = other?;
            search(&pow_config(&o.salt), &o.string, from, thr, None, budget).map(|(n, s)| (n, s.to_string()))
        }
        // the very first nonce
        "zero" => search(&cfg, &ch.string, 0, 0, None, 1).map(|(n, s)| (n, s.to_string())),
        "last" => search(&cfg, &ch.string, u64::MAX, 0, None, 1).map(|(n, s)| (n, s.to_string())),
        "salt" => {
            search(&pow_config(&format!("{}x", ch.salt)), &ch.string, from, thr, None, budget).map(|(n, s)| (n, s.to_string()))
        }
        "nosalt" => search(&pow_config(""), &ch.string, from, thr, None, budget).map(|(n, s)| (n, s.to_string())),
        k => panic!("unknown kind of work {k}"),
    };
    r
}

fn judge(ch: Option<&Issued>, nonce: u64, result: &str) -> (bool, bool) {
    match ch {
        None => (false, false),
        Some(ch) => (
            is_valid(&pow_config(&ch.salt), &ch.string, nonce, result),
            is_sufficient(ch.diff, result),
        ),
    }
}

struct Driver {
    sys: Rc<dyn Api>,
    salt: String,
    srv: Option<Server>,
    slots: HashMap<String, Slot>,
    issued: HashMap<String, Issued>,
    tokens: HashMap<String, (String, u64)>,
    durs: HashMap<String, u64>,
    slot_site: HashMap<String, String>,
    slot_chal: HashMap<String, String>,
    names: Names,
}

/// longer than any script, ms
const FOREVER: u64 = 1_000_000_000;

/// "i3^case": a string that's like that of i3
fn refer(r: &str) -> (String, String) {
    match r.split_once('^') {
        Some((a, b)) => (a.into(), b.into()),
        None => (r.into(), String::new()),
    }
}

fn alike(x: &str, how: &str) -> String {
    match how {
        "case" => x
            .chars()
            .map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
        "lower" => x.to_lowercase(),
        "pre" => format!(" {x}"),
        "post" => format!("{x} "),
        "nul" => format!("{x}\0"),
        "cut" => x[..x.len() - 1].into(),
        "more" => format!("{x}a"),
        "first" => x[1..].into(),
        "glob" => "*".into(),
        "rev" => x.chars().rev().collect(),
        _ => x.into(),
    }
}

impl Driver {
    async fn poll(&mut self, id: &str) -> bool {
        let mut slot = match self.slots.remove(id) {
            Some(s) => s,
            None => return true,
        };
        beat();
        match poll_quietly(&mut slot.fut).await {
            None => {
                self.slots.insert(id.to_string(), slot);
                false
            }
            Some(out) => {
                self.done(id, out);
                true
            }
        }
    }

    fn done(&mut self, id: &str, out: Out) {
        let t = now();
        match out {
            Out::Issue(r) => match r {
                Ok(Some(p)) => {
                    let c = self.names.get("c", &p.string);
                    // a challenge with another salt than the system's is no good to anyone
                    let diff = if p.salt == self.salt { p.difficulty_factor.to_string() } else { format!("salt {:?}", p.salt) };
                    ev(json!({"e":"iret","i":id,"c":c,"diff":diff,"t":t}));
                    let dur = self.durs.get(&self.slot_site[id]).copied().unwrap_or(0);
                    self.issued.insert(
                        id.to_string(),
                        Issued { string: p.string, diff: p.difficulty_factor, salt: p.salt, deadline: t + dur },
                    );
                }
                Ok(None) => ev(json!({"e":"inone","i":id,"res":"none","t":t})),
                Err(_) => ev(json!({"e":"inone","i":id,"res":"err","t":t})),
            },
            Out::Verify(r) => match r {
                Ok((k, d)) => {
                    let n = self.names.get("k", &k);
                    ev(json!({"e":"vret","v":id,"res":"ok","k":n,"diff":d.to_string(),"t":t}));
                    let dur = self
                        .slot_chal
                        .get(id)
                        .and_then(|c| self.slot_site.get(c))
                        .and_then(|s| self.durs.get(s))
                        .copied()
                        .unwrap_or(0);
                    self.tokens.insert(id.to_string(), (k, t + dur));
                }
                Err(e) => ev(json!({"e":"vret","v":id,"res":res_name(&e),"k":"","diff":"","t":t})),
            },
            Out::Validate(r) => {
                let res = match r {
                    Ok(true) => "true",
                    Ok(false) => "false",
                    Err(_) => "err",
                };
                ev(json!({"e":"xret","x":id,"res":res,"t":t}));
            }
        }
    }

    async fn settle(&self) {
        match &self.srv {
            None => settle().await,
            Some(srv) => {
                let s = srv.s.clone();
                quiesce(|| s.borrow().commands).await;
            }
        }
    }

    fn deadlines(&self) -> Vec<u64> {
        self.issued
            .values()
            .map(|i| i.deadline)
            .chain(self.tokens.values().map(|t| t.1))
            .collect()
    }

    /// Waits, and never stops right at the end of something's life.
    async fn wait_until(&mut self, target: u64) {
        let mut t = target;
        let ds = self.deadlines();
        while ds.iter().any(|d| t.abs_diff(*d) < 4) {
            t += 5;
        }
        let n = now();
        if self.srv.is_some() {
            let sp = Spinner::new();
            self.settle().await;
            drop(sp);
        }
        if t > n {
            wait(t - n).await;
        }
        let sp = Spinner::new();
        self.settle().await;
        drop(sp);
    }
}

async fn run_script(sc: &Value, dir: &str, n: usize) {
    restart_clock();
    set_unit(sc["unit"].as_u64().unwrap_or(1));
    let backend = sc["backend"].as_str().unwrap_or("embedded");
    let mut srv = None;
    if backend != "embedded" {
        let begin = now();
        let server = Server::new(
            format!("{dir}/s{n}"),
            Box::new(move || now() - begin),
            Box::new(|_| ()),
            Rc::new(std::cell::RefCell::new(|x: &str| x.to_string())),
        );
        server.s.borrow_mut().record = false;
        srv = Some(server);
    }
    let url = |c: &str| RedisConfig::Single(srv.as_ref().unwrap().url(c));
    let embedded = || Master::new(never()).start();
    let hash = || HashCache::default().start();
    let spinner = Spinner::new();
    let sys: Rc<dyn Api> = match backend {
        "embedded" => {
            let m = embedded();
            Rc::new(Embedded(build(sc, m.clone(), hash()), m))
        }
        "redis" => {
            let m = RedisMaster::new(url("m")).await.expect("registry").start();
            let c = RedisCache::new(url("c")).await.expect("cache").start();
            Rc::new(Redis(build(sc, m.clone(), c), m))
        }
        "mixed" => {
            let m = RedisMaster::new(url("m")).await.expect("registry").start();
            Rc::new(Mixed(build(sc, m.clone(), hash()), m))
        }
        _ => {
            let m = embedded();
            let c = RedisCache::new(url("c")).await.expect("cache").start();
            Rc::new(Mixed2(build(sc, m.clone(), c), m))
        }
    };
    drop(spinner);
    ev(json!({"e":"reset","mayfull":sc["mayfull"].as_bool().unwrap_or(false),
        "byname":matches!(backend, "redis" | "mixed2")}));
    let mut d = Driver {
        sys,
        salt: s(&sc["salt"]),
        srv,
        slots: HashMap::new(),
        issued: HashMap::new(),
        tokens: HashMap::new(),
        durs: HashMap::new(),
        slot_site: HashMap::new(),
        slot_chal: HashMap::new(),
        names: Names::default(),
    };
    let mut seed = 1u64;
    for op in sc["ops"].as_array().unwrap() {
        beat();
        // while a call is in progress the clock stands still
        let spinner = if matches!(op[0].as_str().unwrap(), "wait" | "until") { None } else { Some(Spinner::new()) };
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        match op[0].as_str().unwrap() {
            "addsite" => {
                let name = s(&op[1]);
                let dur = u(&op[2]);
                d.sys.add(AddSite { id: name.clone(), mcaptcha: mcaptcha(&levels_of(&op[3]), dur) }).await;
                // (scripts are shorter than that)
                let ms = units(dur, FOREVER);
                d.durs.insert(name.clone(), ms);
                ev(json!({"e":"addsite","site":name,"dur":ms}));
            }
            "rmsite" => {
                d.sys.remove(s(&op[1])).await;
                ev(json!({"e":"rmsite","site":s(&op[1])}));
            }
            "issue" => {
                let id = s(&op[1]);
                let site = s(&op[2]);
                ev(json!({"e":"icall","i":id,"site":site,"t":now()}));
                d.slot_site.insert(id.clone(), site.clone());
                let fut = d.sys.clone().get_pow(site);
                d.slots.insert(id.clone(), Slot { fut, settled: false });
                d.poll(&id).await;
            }
            "verify" => {
                // ["verify", id, challenge of issue, key, kind, ip, other issue]
                let id = s(&op[1]);
                let (cref, how) = refer(&s(&op[2]));
                let key = s(&op[3]);
                let kind = s(&op[4]);
                let ip = s(&op[5]);
                let ch = d.issued.get(&cref).cloned();
                if ch.is_none() && cref.starts_with('i') {
                    continue; // that challenge wasn't handed out
                }
                let string = match (&ch, d.tokens.get(&cref)) {
                    (Some(c), _) => alike(&c.string, &how),
                    // a token is no challenge
                    (None, Some(t)) => t.0.clone(),
                    _ => cref.clone(),
                };
                let other = d.issued.get(op[6].as_str().unwrap_or("")).cloned();
                let (nonce, result) = match &ch {
                    Some(c) => match make_work(&kind, c, other.as_ref(), seed >> 20) {
                        Some(w) => w,
                        None => continue,
                    },
                    // never a challenge, worked for all the same
                    None => {
                        let salt = s(&sc["salt"]);
                        make_work("good", &Issued { string: string.clone(), diff: 50, salt, deadline: 0 }, None, seed >> 20)
                            .unwrap_or((1, u128::MAX.to_string()))
                    }
                };
                let (valid, suff) = judge(ch.as_ref(), nonce, &result);
                let c = d.names.get("c", &string);
                ev(json!({"e":"vcall","v":id,"c":c,"key":key,"valid":valid,"suff":suff,"t":now(),"kind":kind}));
                d.slot_chal.insert(id.clone(), cref);
                let fut = d.sys.clone().verify(Work { string, result, nonce, key }, ip);
                d.slots.insert(id.clone(), Slot { fut, settled: false });
                d.poll(&id).await;
            }
            "validate" => {
                // ["validate", id, token of verify or literal, key]
                let id = s(&op[1]);
                let (tref, how) = refer(&s(&op[2]));
                let key = s(&op[3]);
                let token = match d.tokens.get(&tref) {
                    Some(t) => alike(&t.0, &how),
                    None if tref.starts_with('v') => continue,
                    None => match d.issued.get(&tref) {
                        // a challenge string is no token
                        Some(i) => i.string.clone(),
                        None => tref.clone(),
                    },
                };
                let k = d.names.get("k", &token);
                ev(json!({"e":"xcall","x":id,"k":k,"key":key,"t":now()}));
                let fut = d.sys.clone().validate(VerifyCaptchaResult { token, key });
                d.slots.insert(id.clone(), Slot { fut, settled: false });
                d.poll(&id).await;
            }
            "poll" => {
                d.poll(&s(&op[1])).await;
            }
            "yield" => {
                for _ in 0..u(&op[1]) {
                    fine_yield().await;
                }
            }
            "settle" => {
                d.settle().await;
                for sl in d.slots.values_mut() {
                    sl.settled = true;
                }
            }
            "await" => {
                let ids: Vec<String> = op.as_array().unwrap()[1..].iter().map(s).collect();
                let begin = std::time::Instant::now();
                loop {
                    let mut all = true;
                    for id in &ids {
                        all &= d.poll(id).await;
                    }
                    if all {
                        break;
                    }
                    fine_yield().await;
                    if begin.elapsed().as_secs() > 40 {
                        ev(json!({"e":"hang"}));
                        finish();
                    }
                }
            }
            "drop" => {
                let id = s(&op[1]);
                if let Some(sl) = d.slots.remove(&id) {
                    let settled = sl.settled;
                    drop(sl);
                    let k = id.chars().next().unwrap();
                    match k {
                        'i' => ev(json!({"e":"idrop","i":id,"t":now()})),
                        'v' => ev(json!({"e":"vdrop","v":id,"settled":settled,"t":now()})),
                        _ => ev(json!({"e":"xdrop","x":id,"t":now()})),
                    }
                }
            }
            "wait" => {
                d.wait_until(now() + u(&op[1])).await;
            }
            "until" => {
                // ["until", issue or verify id, delta]: around the end of its life
                let r = s(&op[1]);
                let dl = d.issued.get(&r).map(|i| i.deadline).or(d.tokens.get(&r).map(|t| t.1));
                if let Some(dl) = dl {
                    let mut target = (dl as i64 + op[2].as_i64().unwrap()).max(0) as u64;
                    if target > now() + FOREVER / 2 {
                        target = now() + 2500;
                    }
                    d.wait_until(target.max(now())).await;
                }
            }
            "mint" => {
                let n = u(&op[1]);
                let m = u(&op[2]);
                let site = s(&op[3]);
                // over all scripts of the run
                static MINTED: Mutex<(u64, std::collections::BTreeSet<String>)> =
                    Mutex::new((0, std::collections::BTreeSet::new()));
                let mut new = vec![];
                let mut spinner = spinner;
                for k in 0..n {
                    beat();
                    if let Out::Issue(Ok(Some(p))) = d.sys.clone().get_pow(site.clone()).await {
                        new.push(p.string);
                    }
                    if k % 500 == 499 {
                        // they may go
                        spinner = None;
                        wait(20_000).await;
                        spinner = Some(Spinner::new());
                    }
                }
                drop(spinner);
                {
                    let mut g = MINTED.lock().unwrap();
                    g.0 += new.len() as u64;
                    g.1.extend(new);
                    ev(json!({"e":"mint","what":"challenge","n":g.0,"distinct":g.1.len()}));
                }
                let mut set = std::collections::HashSet::new();
                for _ in 0..m {
                    beat();
                    let c: libmcaptcha::cache::messages::CacheResult =
                        libmcaptcha::cache::messages::CachedPoWConfig::default().into();
                    set.insert(c.token);
                }
                ev(json!({"e":"mint","what":"token","n":m,"distinct":set.len()}));
                continue;
            }
            // ["flood", challenges, tokens, wait]: lots of others, summed up
            "flood" => {
                let (nc, nt, late) = (u(&op[1]), u(&op[2]), u(&op[3]));
                let site = "the others".to_string();
                let life = 50_000;
                d.sys.add(AddSite { id: site.clone(), mcaptcha: mcaptcha(&[(5, 2)], life) }).await;
                let mut works = vec![];
                for _ in 0..nc {
                    beat();
                    if let Out::Issue(Ok(Some(p))) = d.sys.clone().get_pow(site.clone()).await {
                        let c = Issued { string: p.string.clone(), diff: p.difficulty_factor, salt: p.salt, deadline: 0 };
                        if let Some((nonce, result)) = make_work("good", &c, None, 0) {
                            works.push(Work { string: p.string, result, nonce, key: site.clone() });
                        }
                    }
                }
                let begin = now();
                let mut tokens = vec![];
                // half of them before, half of them after the wait
                let (mut earned, mut failed, mut again) = (0, 0, 0);
                for w in works.iter().take(nt as usize) {
                    beat();
                    match drive(d.sys.clone().verify(w.clone(), "ip".into())).await {
                        Out::Verify(Ok((k, _))) => {
                            earned += 1;
                            tokens.push(k)
                        }
                        _ => failed += 1,
                    }
                }
                drop(spinner);
                wait(late).await;
                let spinner = Spinner::new();
                for w in works.iter().skip(nt as usize) {
                    beat();
                    match drive(d.sys.clone().verify(w.clone(), "ip".into())).await {
                        Out::Verify(Ok(_)) => earned += 1,
                        _ => failed += 1,
                    }
                }
                for w in &works {
                    beat();
                    if let Out::Verify(Ok(_)) = drive(d.sys.clone().verify(w.clone(), "ip".into())).await {
                        again += 1;
                    }
                }
                let (mut good, mut twice) = (0, 0);
                for count in [&mut good, &mut twice] {
                    for k in &tokens {
                        beat();
                        let v = VerifyCaptchaResult { token: k.clone(), key: site.clone() };
                        if let Out::Validate(Ok(true)) = d.sys.clone().validate(v).await {
                            *count += 1;
                        }
                    }
                }
                drop(spinner);
                ev(json!({"e":"flood","n":works.len(),"asked":nc,"early":nt,"late":now() - begin > life * 1000,"earned":earned,
                    "failed":failed,"again":again,"good":good,"twice":twice}));
                continue;
            }
            // ["rough", [client, skip, fault]...]: the server plays up from now on
            "rough" => {
                let srv = d.srv.as_ref().unwrap();
                ev(json!({"e":"rough"}));
                for f in &op.as_array().unwrap()[1..] {
                    match s(&f[2]).as_str() {
                        "kill" => srv.kill(),
                        "down" => srv.down(),
                        k => {
                            let mut s = srv.s.borrow_mut();
                            for _ in 0..u(&f[1]) {
                                s.faults.push_back((f[0].as_str().unwrap().into(), String::new()));
                            }
                            s.faults.push_back((f[0].as_str().unwrap().into(), k.into()));
                        }
                    }
                }
            }
            // ["awaitr", id...]: while the clock runs
            "awaitr" => {
                drop(spinner);
                let ids: Vec<String> = op.as_array().unwrap()[1..].iter().map(s).collect();
                let mut n = 0;
                loop {
                    let spinner = Spinner::new();
                    let mut all = true;
                    for id in &ids {
                        all &= d.poll(id).await;
                    }
                    if all {
                        break;
                    }
                    d.settle().await;
                    drop(spinner);
                    n += 1;
                    // (nothing takes that long)
                    if n > 2000 {
                        ev(json!({"e":"hang"}));
                        finish();
                    }
                    wait(if n < 20 { 50 } else { 500 }).await;
                }
                continue;
            }
            // ["calm"]: the server is well again, and given the time to be found so
            "calm" => {
                drop(spinner);
                {
                    let srv = d.srv.as_ref().unwrap();
                    srv.s.borrow_mut().faults.clear();
                    srv.up();
                }
                let site = "calm".to_string();
                let mut well = 0;
                for _ in 0..60 {
                    let sys = d.sys.clone();
                    let site = site.clone();
                    let f = async move {
                        let v = VerifyCaptchaResult { token: "no token".into(), key: site.clone() };
                        let a = matches!(sys.clone().validate(v).await, Out::Validate(Ok(false)));
                        let b = matches!(sys.clone().get_pow(site.clone()).await, Out::Issue(Ok(Some(_))));
                        if !b {
                            sys.clone().add(AddSite { id: site, mcaptcha: mcaptcha(&[(5, 2)], 30) }).await;
                        }
                        a && b
                    };
                    let h = actix_rt::spawn(f);
                    for _ in 0..40 {
                        let spinner = Spinner::new();
                        d.settle().await;
                        drop(spinner);
                        if h.is_finished() {
                            break;
                        }
                        wait(500).await;
                    }
                    if !h.is_finished() {
                        break;
                    }
                    well = if h.await.unwrap_or(false) { well + 1 } else { 0 };
                    if well == 2 {
                        break;
                    }
                    wait(1000).await;
                }
                ev(json!({"e":if well == 2 { "calm" } else { "unwell" },"t":now()}));
                continue;
            }
            o => panic!("unknown op {o}"),
        }
        drop(spinner);
    }
    if let Some(srv) = &d.srv {
        srv.down();
    }
}

// ---------------------------------------------------------------------------
// Racing callers on real threads

fn block_on<F: Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}

fn run_race(sc: &Value) {
    let threads = u(&sc["threads"]) as usize;
    let rounds = u(&sc["rounds"]) as usize;
    let seed0 = u(&sc["seed"]);
    let salt = s(&sc["salt"]);
    let runners = u(&sc["runners"]) as usize;
    let qlen = u(&sc["qlen"]) as usize;
    let levels = levels_of(&sc["levels"]);
    let (tx, rx) = std::sync::mpsc::channel();
    let (stop_tx, stop_rx) = tokio::sync::oneshot::channel::<()>();
    let (s2, l2) = (salt.clone(), levels.clone());
    let sysj = std::thread::spawn(move || {
        actix_rt::System::new().block_on(async move {
            // master and cache on threads of their own
            let a1 = actix_rt::Arbiter::new();
            let a2 = actix_rt::Arbiter::new();
            let master = Master::start_in_arbiter(&a1.handle(), |_| Master::new(1_000_000_000));
            let cache = HashCache::start_in_arbiter(&a2.handle(), |_| HashCache::default());
            for name in ["a", "b"] {
                master
                    .send(AddSite { id: name.into(), mcaptcha: mcaptcha(&l2, 36000) })
                    .await
                    .unwrap()
                    .await
                    .unwrap()
                    .unwrap();
            }
            let sys: Sys = SystemBuilder::default()
                .master(master)
                .cache(cache)
                .pow(pow_config(&s2))
                .runners(runners)
                .queue_length(qlen)
                .build();
            tx.send(Arc::new(sys)).unwrap();
            let _ = stop_rx.await;
            a1.stop();
            a2.stop();
        });
    });
    let sys = rx.recv().unwrap();
    ev(json!({"e":"reset","mayfull":qlen < threads,"byname":false}));
    ev(json!({"e":"addsite","site":"a","dur":36000000}));
    ev(json!({"e":"addsite","site":"b","dur":36000000}));
    let start = std::time::Instant::now();
    let ids = Arc::new(AtomicU64::new(1));
    let names = Arc::new(Mutex::new(Names::default()));
    let barrier = Arc::new(Barrier::new(threads));
    let current: Arc<Mutex<Option<Issued>>> = Arc::new(Mutex::new(None));
    let tokens: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let mut js = vec![];
    for th in 0..threads {
        let (sys, ids, names, barrier, current, tokens) =
            (sys.clone(), ids.clone(), names.clone(), barrier.clone(), current.clone(), tokens.clone());
        js.push(std::thread::spawn(move || {
            let t = || start.elapsed().as_millis() as u64;
            let mut r = seed0.wrapping_add(th as u64 * 7919).wrapping_mul(0x9E3779B97F4A7C15) | 1;
            let mut rnd = move |n: u64| {
                r ^= r << 13;
                r ^= r >> 7;
                r ^= r << 17;
                r % n
            };
            for round in 0..rounds {
                if barrier.wait().is_leader() {
                    let i = format!("i{}", ids.fetch_add(1, Ordering::Relaxed));
                    ev(json!({"e":"icall","i":i,"site":"a","t":t()}));
                    match block_on(sys.get_pow("a".into())) {
                        Ok(Some(p)) => {
                            let c = names.lock().unwrap().get("c", &p.string);
                            ev(json!({"e":"iret","i":i,"c":c,"diff":p.difficulty_factor.to_string(),"t":t()}));
                            *current.lock().unwrap() =
                                Some(Issued { string: p.string, diff: p.difficulty_factor, salt: p.salt, deadline: 0 });
                        }
                        _ => {
                            ev(json!({"e":"inone","i":i,"res":"err","t":t()}));
                            *current.lock().unwrap() = None;
                        }
                    }
                    tokens.lock().unwrap().clear();
                }
                barrier.wait();
                // everybody submits a work for the same challenge
                let ch = current.lock().unwrap().clone();
                if let Some(ch) = ch {
                    let kind = if round % 3 == 0 { "good" } else { ["good", "low", "forged", "good"][rnd(4) as usize] };
                    let key = if rnd(6) == 0 { "b" } else { "a" };
                    let (nonce, result) = make_work(kind, &ch, None, rnd(1 << 30)).unwrap_or((1, "1".into()));
                    let (valid, suff) = judge(Some(&ch), nonce, &result);
                    let v = format!("v{}", ids.fetch_add(1, Ordering::Relaxed));
                    let c = names.lock().unwrap().get("c", &ch.string);
                    let work = Work { string: ch.string.clone(), result, nonce, key: key.into() };
                    let ip = format!("ip{}", rnd(3));
                    barrier.wait();
                    ev(json!({"e":"vcall","v":v,"c":c,"key":key,"valid":valid,"suff":suff,"t":t(),"kind":kind}));
                    match block_on(sys.verify_pow(work, ip)) {
                        Ok((k, d)) => {
                            let n = names.lock().unwrap().get("k", &k);
                            ev(json!({"e":"vret","v":v,"res":"ok","k":n,"diff":d.to_string(),"t":t()}));
                            tokens.lock().unwrap().push(k);
                        }
                        Err(e) => ev(json!({"e":"vret","v":v,"res":res_name(&e),"k":"","diff":"","t":t()})),
                    }
                } else {
                    barrier.wait();
                }
                barrier.wait();
                // and validates the token that came out of it
                let toks = tokens.lock().unwrap().clone();
                for token in toks {
                    let x = format!("x{}", ids.fetch_add(1, Ordering::Relaxed));
                    let key = if rnd(5) == 0 { "b" } else { "a" };
                    let k = names.lock().unwrap().get("k", &token);
                    ev(json!({"e":"xcall","x":x,"k":k,"key":key,"t":t()}));
                    let res = match block_on(sys.validate_verification_tokens(VerifyCaptchaResult { token, key: key.into() })) {
                        Ok(true) => "true",
                        Ok(false) => "false",
                        Err(_) => "err",
                    };
                    ev(json!({"e":"xret","x":x,"res":res,"t":t()}));
                }
            }
        }));
    }
    for j in js {
        j.join().expect("caller thread");
    }
    drop(sys);
    let _ = stop_tx.send(());
    let _ = sysj.join();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    quiet_panics();
    open_log(&a[2]);
    watchdog(60);
    let scripts = read_scripts(&a[1]);
    let (races, seqs): (Vec<Value>, Vec<Value>) = scripts.into_iter().partition(|x| x["mode"] == "race");
    if !seqs.is_empty() {
        let dir = std::env::temp_dir().join(format!("lmc-captcha-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let dir2 = dir.clone();
        for (n, sc) in seqs.into_iter().enumerate() {
            let dir = dir2.clone();
            run_virtual(move || async move { run_script(&sc, dir.to_str().unwrap(), n).await });
            flush_log();
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
    for sc in &races {
        run_race(sc);
        flush_log();
    }
    finish();
}
