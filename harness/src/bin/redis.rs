//! Replays scripts of calls, faults and departures on the Redis-backed registry and
//! cache, against a server that lives in the same process, and records what the server
//! receives and what the callers see.
//!
//! usage: redis SCRIPTS TRACE
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

use actix::prelude::*;
use harness::fakeredis::{Server, COMMANDS};
use harness::*;
use libmcaptcha::cache::messages::*;
use libmcaptcha::cache::redis::RedisCache;
use libmcaptcha::cache::AddChallenge;
use libmcaptcha::errors::{CaptchaError, CaptchaResult};
use libmcaptcha::master::messages::{AddSite, AddVisitor, RemoveCaptcha, Rename};
use libmcaptcha::master::redis::master::Master;
use libmcaptcha::redis::mcaptcha_redis::{MCaptchaRedis, MCaptchaRedisConnection};
use libmcaptcha::redis::RedisConfig;

enum Client {
    M(Addr<Master>),
    C(Addr<RedisCache>),
    D(Rc<MCaptchaRedisConnection>),
}

enum Val {
    Unit,
    Bool(bool),
    Count(u64),
    Visit(u32, u64),
    Chal(u32, u64, String),
    None,
}

enum Out {
    Ret(Result<Val, CaptchaError>),
    Panic,
    Conn(Result<Client, CaptchaError>),
}

type Fut = Pin<Box<dyn Future<Output = Out>>>;

/// A panic under way becomes a result.
struct Catch(Pin<Box<dyn Future<Output = Out>>>);
impl Future for Catch {
    type Output = Out;
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Out> {
        let f = self.0.as_mut();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.poll(cx))) {
            Ok(p) => p,
            Err(_) => std::task::Poll::Ready(Out::Panic),
        }
    }
}

async fn sent<M>(
    r: Result<tokio::sync::oneshot::Receiver<CaptchaResult<M>>, actix::MailboxError>,
) -> Result<M, CaptchaError> {
    match r {
        Err(e) => Err(e.into()),
        Ok(rx) => match rx.await {
            Err(e) => Err(e.into()),
            Ok(r) => r,
        },
    }
}

/// The future of a call.
fn start(c: &Client, op: &str, a: &[Value]) -> Fut {
    macro_rules! go {
        ($e:expr) => {
            Box::pin(Catch(Box::pin(async move { Out::Ret($e.await) })))
        };
    }
    let n = |i: usize| s(&a[i]);
    let unit = |r: CaptchaResult<()>| r.map(|_| Val::Unit);
    match (c, op) {
        (Client::M(m), "add") => {
            let f = m.send(AddSite { id: n(0), mcaptcha: mcaptcha(&levels_of(&a[1]), u(&a[2])) });
            go!(async move { unit(sent(f.await).await) })
        }
        (Client::M(m), "visit") => {
            let f = m.send(AddVisitor(n(0)));
            go!(async move {
                sent(f.await).await.map(|v| match v {
                    Some(v) => Val::Visit(v.difficulty_factor, v.duration),
                    None => Val::None,
                })
            })
        }
        (Client::M(m), "rename") => {
            let f = m.send(Rename { name: n(0), rename_to: n(1) });
            go!(async move { unit(sent(f.await).await) })
        }
        (Client::M(m), "remove") => {
            let f = m.send(RemoveCaptcha(n(0)));
            go!(async move { unit(sent(f.await).await) })
        }
        (Client::C(m), "store") => {
            let f = m.send(CachePoW { key: n(0), string: n(1), difficulty_factor: u(&a[2]) as u32, duration: u(&a[3]) });
            go!(async move { unit(sent(f.await).await) })
        }
        (Client::C(m), "take") => {
            let f = m.send(RetrivePoW(VerifyCaptchaResult { key: n(0), token: n(1) }));
            go!(async move {
                sent(f.await).await.map(|v| match v {
                    Some(v) => Val::Chal(v.difficulty_factor, v.duration, v.key),
                    None => Val::None,
                })
            })
        }
        (Client::C(m), "tok") => {
            let f = m.send(CacheResult { key: n(0), token: n(1), duration: u(&a[2]) });
            go!(async move { unit(sent(f.await).await) })
        }
        (Client::C(m), "val") => {
            let f = m.send(VerifyCaptchaResult { key: n(0), token: n(1) });
            go!(async move { sent(f.await).await.map(Val::Bool) })
        }
        (Client::D(d), _) => {
            let d = d.clone();
            let a: Vec<Value> = a.to_vec();
            let op = op.to_string();
            go!(async move {
                let n = |i: usize| s(&a[i]);
                let pair = |a: &[Value]| VerifyCaptchaResult { key: s(&a[0]), token: s(&a[1]) };
                match op.as_str() {
                    "add" => unit(d.add_mcaptcha(AddSite { id: n(0), mcaptcha: mcaptcha(&levels_of(&a[1]), u(&a[2])) }).await),
                    "visit" => d.add_visitor(AddVisitor(n(0))).await.map(|v| match v {
                        Some(v) => Val::Visit(v.difficulty_factor, v.duration),
                        None => Val::None,
                    }),
                    "rename" => unit(d.rename_captcha(&n(0), &n(1)).await),
                    "remove" => unit(d.delete_captcha(&n(0)).await),
                    "exists" => d.check_captcha_exists(&n(0)).await.map(Val::Bool),
                    "count" => d.get_visitors(&n(0)).await.map(|x| Val::Count(x as u64)),
                    "store" => {
                        let ch = AddChallenge { challenge: n(1), difficulty: u(&a[2]) as u32, duration: u(&a[3]) };
                        unit(d.add_challenge(&n(0), &ch).await)
                    }
                    "take" => {
                        let key = n(0);
                        d.get_challenge(&pair(&a)).await.map(|v| Val::Chal(v.difficulty_factor, v.duration, key))
                    }
                    "drop" => unit(d.delete_challenge(&pair(&a)).await),
                    "tok" => unit(d.add_token(&CacheResult { key: n(0), token: n(1), duration: u(&a[2]) }).await),
                    "val" => d.get_token(&pair(&a)).await.map(Val::Bool),
                    "untok" => unit(d.delete_token(&pair(&a)).await),
                    "ping" => Ok(Val::Bool(d.ping().await)),
                    o => panic!("unknown op {o}"),
                }
            })
        }
        (_, o) => panic!("{o} not understood by this client"),
    }
}

fn connect(kind: String, cfg: RedisConfig) -> Fut {
    Box::pin(Catch(Box::pin(async move {
        Out::Conn(match kind.as_str() {
            "registry" => Master::new(cfg).await.map(|m| Client::M(m.start())),
            "cache" => RedisCache::new(cfg).await.map(|m| Client::C(m.start())),
            _ => MCaptchaRedis::new(cfg).await.map(|m| Client::D(Rc::new(m.get_client()))),
        })
    })))
}

fn ms(sec: u64) -> u64 {
    (sec as u128 * 1000 / UNIT.with(|u| u.get()) as u128).min(1_000_000_000) as u64
}

thread_local! {
    /// The milliseconds in the trace's unit of time.
    static UNIT: std::cell::Cell<u64> = const { std::cell::Cell::new(1) };
    /// The virtual time at which the script began.
    static BEGIN: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// The time of the trace.
fn tick() -> u64 {
    (now() - BEGIN.with(|b| b.get())) / UNIT.with(|u| u.get())
}

struct Driver {
    srv: Server,
    clients: HashMap<String, Client>,
    slots: HashMap<String, (Fut, String)>,
    names: Rc<RefCell<dyn FnMut(&str) -> String>>,
}

impl Driver {
    fn name(&self, x: &str) -> String {
        (self.names.borrow_mut())(x)
    }

    async fn poll(&mut self, id: &str) -> bool {
        let Some((mut f, c)) = self.slots.remove(id) else { return true };
        beat();
        match poll_once(&mut f).await {
            None => {
                self.slots.insert(id.to_string(), (f, c));
                false
            }
            Some(o) => {
                self.done(id, c, o);
                true
            }
        }
    }

    fn done(&mut self, id: &str, client: String, o: Out) {
        let t = tick();
        let ret = |res: &str| json!({"e":"ret","i":id,"res":res,"t":t});
        match o {
            Out::Panic if self.clients.contains_key(&client) => ev(ret("panic")),
            Out::Ret(Err(e)) => {
                let mut r = ret("err");
                r["why"] = json!(e.to_string());
                ev(r);
            }
            Out::Ret(Ok(v)) => {
                let mut r = ret("ok");
                match v {
                    Val::Unit => (),
                    Val::Bool(b) => r["v"] = json!(b),
                    Val::Count(n) => r["v"] = json!(n.to_string()),
                    Val::Visit(d, n) => {
                        r["diff"] = json!(d.to_string());
                        r["dur"] = json!(n.to_string());
                    }
                    Val::Chal(d, n, k) => {
                        r["diff"] = json!(d.to_string());
                        r["dur"] = json!(n.to_string());
                        r["key"] = json!(self.name(&k));
                    }
                    Val::None => r["res"] = json!("none"),
                }
                ev(r);
            }
            Out::Panic => ev(json!({"e":"connected","c":client,"res":"panic","cmd":"","f":self.srv.s.borrow().setup_fault})),
            Out::Conn(r) => {
                let (res, cmd) = match &r {
                    Ok(_) => ("ok", String::new()),
                    Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded) => ("nomodule", String::new()),
                    Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(c)) => ("nocmd", c.to_uppercase()),
                    Err(_) => ("err", String::new()),
                };
                ev(json!({"e":"connected","c":client,"res":res,"cmd":cmd,"f":self.srv.s.borrow().setup_fault}));
                if let Ok(c) = r {
                    self.clients.insert(client, c);
                }
            }
        }
    }

    async fn quiesce(&self) {
        let sp = Spinner::new();
        let s = self.srv.s.clone();
        quiesce(|| s.borrow().commands).await;
        drop(sp);
    }

    /// Until the calls have returned; the clock moves only if nothing else does.
    async fn wait_for(&mut self, ids: &[String]) {
        let mut waited = 0;
        loop {
            for _ in 0..3 {
                let sp = Spinner::new();
                let s = self.srv.s.clone();
                loop {
                    let before = s.borrow().commands;
                    let mut all = true;
                    for _ in 0..40 {
                        all = true;
                        for id in ids {
                            all &= self.poll(id).await;
                        }
                        if all {
                            break;
                        }
                        for _ in 0..10 {
                            fine_yield().await;
                        }
                    }
                    if all {
                        return;
                    }
                    if s.borrow().commands == before {
                        break;
                    }
                }
                drop(sp);
            }
            waited += 100;
            if waited > 120_000 {
                ev(json!({"e":"hang"}));
                finish();
            }
            wait(100).await;
        }
    }
}

fn fault_client(c: &str) -> String {
    if c == "*" {
        String::new()
    } else {
        c.to_string()
    }
}

async fn run_script(sc: &Value, dir: &str, n: usize) {
    let table: Rc<RefCell<HashMap<String, String>>> = Rc::default();
    let names: Rc<RefCell<dyn FnMut(&str) -> String>> = Rc::new(RefCell::new(move |x: &str| {
        let mut t = table.borrow_mut();
        let k = t.len() + 1;
        t.entry(x.to_string()).or_insert_with(|| format!("n{k}")).clone()
    }));
    let begin = now();
    BEGIN.with(|b| b.set(begin));
    UNIT.with(|x| x.set(sc["unit"].as_u64().unwrap_or(1)));
    let clock = move || now() - begin;
    let log = Box::new(move |mut v: Value| {
        v["t"] = json!(tick());
        ev(v)
    });
    let srv = Server::new(format!("{dir}/s{n}"), Box::new(clock), log, names.clone());
    srv.s.borrow_mut().odd_answers = sc["odd"].as_u64();
    ev(json!({"e":"reset"}));
    let mut d = Driver { srv: srv.clone(), clients: HashMap::new(), slots: HashMap::new(), names };
    for op in sc["ops"].as_array().unwrap() {
        beat();
        let a = op.as_array().unwrap();
        match op[0].as_str().unwrap() {
            "server" => {
                // ["server", modules, missing commands]
                let mods: Vec<String> = a[1].as_array().unwrap().iter().map(s).collect();
                let miss: Vec<String> = a[2].as_array().unwrap().iter().map(|i| COMMANDS[u(i) as usize].to_string()).collect();
                ev(json!({"e":"server","modules":mods,"missing":miss}));
                let mut v = srv.s.borrow_mut();
                v.modules = mods;
                v.missing = miss.into_iter().collect();
            }
            "connect" => {
                // ["connect", client, kind]
                let c = s(&op[1]);
                ev(json!({"e":"connect","c":c,"kind":s(&op[2])}));
                srv.s.borrow_mut().setup_fault.clear();
                let f = connect(s(&op[2]), RedisConfig::Single(srv.url(&c)));
                d.slots.insert(c.clone(), (f, c.clone()));
                d.wait_for(&[c]).await;
            }
            "call" => {
                // ["call", id, client, op, args...]
                let id = s(&op[1]);
                let Some(c) = d.clients.get(&s(&op[2])) else { continue };
                let o = s(&op[3]);
                let args = &a[4..];
                let mut e = json!({"e":"call","i":id,"c":s(&op[2]),"op":o,"t":tick()});
                let nm = |i: usize| args.get(i).and_then(|x| x.as_str()).map(|x| d.name(x)).unwrap_or_default();
                e["n"] = json!(nm(0));
                e["to"] = json!(nm(1));
                match o.as_str() {
                    "add" => {
                        let ls: Vec<Value> = {
                            let mut l = levels_of(&args[1]);
                            l.sort();
                            l.iter().map(|(t, f)| json!([t.to_string(), f.to_string()])).collect()
                        };
                        e["levels"] = json!(ls);
                        e["dur"] = json!(u(&args[2]).to_string());
                    }
                    "store" => {
                        e["diff"] = json!(u(&args[2]).to_string());
                        e["dur"] = json!(u(&args[3]).to_string());
                        e["ms"] = json!(ms(u(&args[3])));
                    }
                    "tok" => e["ms"] = json!(ms(u(&args[2]))),
                    _ => (),
                }
                ev(e);
                let f = start(c, &o, args);
                d.slots.insert(id.clone(), (f, s(&op[2])));
                let sp = Spinner::new();
                d.poll(&id).await;
                drop(sp);
            }
            "poll" => {
                let sp = Spinner::new();
                d.poll(&s(&op[1])).await;
                drop(sp);
            }
            "yield" => {
                let sp = Spinner::new();
                for _ in 0..u(&op[1]) {
                    fine_yield().await;
                }
                drop(sp);
            }
            "settle" => d.quiesce().await,
            "await" => {
                let ids: Vec<String> = a[1..].iter().map(s).collect();
                d.wait_for(&ids).await;
            }
            "drop" => {
                let id = s(&op[1]);
                if let Some((f, _)) = d.slots.remove(&id) {
                    ev(json!({"e":"gone","i":id,"t":tick()}));
                    drop(f);
                }
            }
            "wait" => {
                d.quiesce().await;
                wait(u(&op[1])).await;
                d.quiesce().await;
            }
            "fault" => srv.s.borrow_mut().faults.push_back((fault_client(&s(&op[1])), s(&op[2]))),
            "skip" => srv.s.borrow_mut().faults.push_back((fault_client(&s(&op[1])), String::new())),
            "clear" => srv.s.borrow_mut().faults.clear(),
            "hold" => srv.s.borrow_mut().hold = true,
            "holdreply" => srv.s.borrow_mut().hold_reply = true,
            "release" => {
                srv.s.borrow_mut().hold = false;
                srv.s.borrow_mut().hold_reply = false;
                srv.notify();
            }
            "kill" => {
                d.quiesce().await;
                ev(json!({"e":"kill"}));
                srv.kill();
                d.quiesce().await;
            }
            "down" => {
                d.quiesce().await;
                ev(json!({"e":"down"}));
                srv.down();
                d.quiesce().await;
            }
            "up" => {
                ev(json!({"e":"up"}));
                srv.up();
            }
            o => panic!("unknown op {o}"),
        }
    }
    drop(d);
    srv.down();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    quiet_panics();
    open_log(&a[2]);
    watchdog(60);
    let scripts = read_scripts(&a[1]);
    let dir = std::env::temp_dir().join(format!("lmc-redis-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let dir2 = dir.clone();
    run_virtual(move || async move {
        for (n, sc) in scripts.iter().enumerate() {
            run_script(sc, dir.to_str().unwrap(), n).await;
            flush_log();
        }
    });
    let _ = std::fs::remove_dir_all(&dir2);
    finish();
}
