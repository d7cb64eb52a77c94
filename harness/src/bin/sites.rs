//! Replays scripts of registry operations on the real embedded Master and records what
//! its users see: visits, lookups, counts, snapshots.
//!
//! usage: sites SCRIPTS TRACE
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;

use actix::prelude::*;
use harness::*;
use libmcaptcha::cache::hashcache::HashCache;
use libmcaptcha::defense::Level;
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::master::embedded::counter::{self, Counter, GetCurrentVisitorCount};
use libmcaptcha::master::embedded::master::{GetSite, Master};
use libmcaptcha::master::messages::*;
use libmcaptcha::master::AddVisitorResult;
use libmcaptcha::system::{System as Captcha, SystemBuilder};
use libmcaptcha::MCaptcha;

const CLAMP: u64 = 1_000_000_000;

fn ms(dur: u64) -> u64 {
    units(dur, CLAMP)
}

fn levels_json(m: &MCaptcha) -> Value {
    let l: Vec<Level> = m.get_defense().into();
    Value::Array(
        l.iter()
            .map(|l| json!([l.visitor_threshold.min(i32::MAX as u32), l.difficulty_factor.to_string()]))
            .collect(),
    )
}

fn lvl(m: &MCaptcha) -> usize {
    let d = m.get_defense();
    let cur = *d.current_level();
    let l: Vec<Level> = d.into();
    1 + l.iter().position(|x| *x == cur).unwrap_or(99)
}

fn describe(site: &str, m: &MCaptcha) -> Value {
    json!({"site":site,"levels":levels_json(m),"dur":ms(m.get_duration()),"lvl":lvl(m),
           "count":m.get_visitors().min(i32::MAX as u32)})
}

fn describe_all(data: &HashMap<String, MCaptcha>) -> Value {
    let mut names: Vec<&String> = data.keys().collect();
    names.sort();
    Value::Array(names.iter().map(|n| describe(n, &data[*n])).collect())
}

type Snapshot = Pin<Box<dyn Future<Output = Option<HashMap<String, MCaptcha>>>>>;
type Visit = Pin<Box<dyn Future<Output = (String, Value, Value)>>>;

struct Driver {
    master: Addr<Master>,
    t0: u64,
    gc: i64,
    deadlines: Vec<u64>,
    durs: HashMap<String, u64>,
    dumps: HashMap<u64, String>,
    visits: HashMap<String, Visit>,
    snapshots: HashMap<String, Snapshot>,
    vseq: u64,
    over: bool,
    /// captcha system in front of the registry
    sys: Option<std::rc::Rc<Captcha<HashCache, Master>>>,
}

/// Awaits something that must come about by itself; None: it doesn't.
async fn patient<T>(f: impl Future<Output = T>) -> Option<T> {
    let mut f = Box::pin(f);
    for n in 0..200_000u32 {
        if n % 1000 == 0 {
            beat();
        }
        let r = std::future::poll_fn(|cx| {
            std::task::Poll::Ready(match f.as_mut().poll(cx) {
                std::task::Poll::Ready(v) => Some(v),
                std::task::Poll::Pending => None,
            })
        })
        .await;
        if r.is_some() {
            return r;
        }
        if n % 16 == 15 {
            tokio::task::yield_now().await;
        } else {
            fine_yield().await;
        }
    }
    None
}

fn visit_result(r: Result<Result<Result<Option<AddVisitorResult>, CaptchaError>, tokio::sync::oneshot::error::RecvError>, MailboxError>) -> (String, Value, Value) {
    match r {
        Ok(Ok(Ok(Some(a)))) => ("ok".into(), json!(a.difficulty_factor.to_string()), json!(ms(a.duration))),
        Ok(Ok(Ok(None))) => ("none".into(), json!(""), json!(0)),
        Err(MailboxError::Closed) => ("dead".into(), json!(""), json!(0)),
        _ => ("err".into(), json!(""), json!(0)),
    }
}

macro_rules! ask {
    ($d:expr, $msg:expr) => {{
        let m = $d.master.clone();
        let msg = $msg;
        let r = patient(async move {
            match m.send(msg).await {
                Ok(rx) => Ok(rx.await),
                Err(e) => Err(e),
            }
        })
        .await;
        match r {
            None => {
                ev(json!({"e":"hang"}));
                $d.over = true;
                None
            }
            Some(Err(_)) => {
                ev(json!({"e":"dead"}));
                $d.over = true;
                None
            }
            Some(Ok(Ok(Ok(v)))) => Some(v),
            Some(Ok(_)) => {
                ev(json!({"e":"ack","ok":false}));
                None
            }
        }
    }};
}

impl Driver {
    /// a little later if something ends right now
    async fn nudge(&mut self) {
        loop {
            let n = now();
            if self.deadlines.iter().any(|d| n + 3 >= *d && n <= *d + 3) {
                wait(1).await;
                if now() == n {
                    return; // time is over
                }
            } else {
                return;
            }
        }
    }

    async fn wait(&mut self, t: u64, exact: bool) {
        wait(t).await;
        if !exact {
            let n = now();
            self.deadlines.retain(|d| *d + 4 > n);
            self.nudge().await;
        }
    }

    fn build(&self, dur: u64, levels: &Value, nvis: u64, max: bool) -> MCaptcha {
        let mut def = defense(&levels_of(levels));
        if max {
            def.max_defense();
        }
        let mut m = libmcaptcha::MCaptchaBuilder::default().defense(def).duration(dur).build().unwrap();
        if nvis > 50 {
            // as if loaded from elsewhere, the level hasn't followed yet
            let txt = serde_json::to_string(&m).unwrap();
            let txt = txt.replacen("\"visitor_threshold\":0,\"defense\"", &format!("\"visitor_threshold\":{nvis},\"defense\""), 1);
            if let Ok(x) = serde_json::from_str::<MCaptcha>(&txt) {
                m = x;
            }
            return m;
        }
        for _ in 0..nvis {
            m.add_visitor();
        }
        m
    }

    async fn visit(&mut self, site: &str, kind: &str) -> Option<(String, Value, Value)> {
        let f = self.visit_future(site, kind);
        match patient(f).await {
            Some(r) => {
                if r.0 == "dead" {
                    ev(json!({"e":"dead"}));
                    self.over = true;
                    return None;
                }
                Some(r)
            }
            None => {
                ev(json!({"e":"hang"}));
                self.over = true;
                None
            }
        }
    }

    fn visit_future(&mut self, site: &str, kind: &str) -> Visit {
        let site = site.to_string();
        match kind {
            "pow" => {
                let sys = self.sys.clone().unwrap();
                Box::pin(async move {
                    match sys.get_pow(site).await {
                        Ok(Some(p)) => ("ok".into(), json!(p.difficulty_factor.to_string()), json!(-1)),
                        Ok(None) => ("none".into(), json!(""), json!(0)),
                        Err(_) => ("err".into(), json!(""), json!(0)),
                    }
                })
            }
            _ => {
                let m = self.master.clone();
                Box::pin(async move {
                    visit_result(match m.send(AddVisitor(site)).await {
                        Ok(rx) => Ok(rx.await),
                        Err(e) => Err(e),
                    })
                })
            }
        }
    }

    fn noted(&mut self, site: &str) {
        if let Some(d) = self.durs.get(site) {
            self.deadlines.push(now() + d);
        }
    }

    async fn counter(&mut self, site: &str) -> Option<Option<Addr<Counter>>> {
        let m = self.master.clone();
        let name = site.to_string();
        match patient(async move { m.send(GetSite(name)).await }).await {
            None => {
                ev(json!({"e":"hang"}));
                self.over = true;
                None
            }
            Some(Err(_)) => {
                ev(json!({"e":"dead"}));
                self.over = true;
                None
            }
            Some(Ok(a)) => Some(a),
        }
    }

    fn load(&self, idx: u64, names: &Value) -> Option<HashMap<String, MCaptcha>> {
        let txt = self.dumps.get(&idx)?;
        let mut data: HashMap<String, MCaptcha> = serde_json::from_str(txt).ok()?;
        if let Some(ns) = names.as_array() {
            data.retain(|k, _| ns.iter().any(|n| n.as_str() == Some(k)));
        }
        Some(data)
    }
}

fn start_master(gc: i64) -> Addr<Master> {
    Master::new(if gc < 0 { never() } else { gc as u64 }).start()
}

fn gc_ms(gc: i64) -> i64 {
    if gc < 0 {
        -1
    } else {
        units(gc as u64, CLAMP) as i64
    }
}

async fn run_script(sc: &Value) {
    set_unit(sc["unit"].as_u64().unwrap_or(1));
    wait(1).await;
    let gc = sc["gc"].as_i64().unwrap();
    let master = start_master(gc);
    let mut d = Driver {
        master,
        t0: now(),
        gc,
        deadlines: vec![],
        durs: HashMap::new(),
        dumps: HashMap::new(),
        visits: HashMap::new(),
        snapshots: HashMap::new(),
        vseq: 0,
        over: false,
        sys: None,
    };
    let t0 = now();
    let clock = move || now() - t0;
    ev(json!({"e":"reset","gc":gc_ms(gc),"slack":60}));
    if sc["pow"] == true {
        d.sys = Some(std::rc::Rc::new(
            SystemBuilder::default()
                .master(d.master.clone())
                .cache(HashCache::default().start())
                .pow(pow_config("s"))
                .runners(1)
                .queue_length(1)
                .build(),
        ));
    }
    {
        let _s = Spinner::new();
        settle().await;
    }
    for op in sc["ops"].as_array().unwrap() {
        if d.over {
            break;
        }
        beat();
        let name = op[0].as_str().unwrap();
        let moving = matches!(name, "wait" | "until" | "gcwait");
        if !moving && !matches!(name, "yield") && sc["race"] != true {
            d.nudge().await;
        }
        let spinner = if moving { None } else { Some(Spinner::new()) };
        match name {
            // ["add", site, duration, levels, visitors, at the highest level, fire and forget]
            "add" => {
                let site = s(&op[1]);
                let dur = u(&op[2]);
                let m = d.build(dur, &op[3], u(&op[4]), op[5] == true);
                let mut e = describe(&site, &m);
                e["e"] = json!("add");
                e["t"] = json!(clock());
                ev(e);
                d.durs.insert(site.clone(), ms(dur));
                d.noted(&site);
                let msg = AddSite { id: site, mcaptcha: m };
                if op[6] == true {
                    d.master.do_send(msg);
                } else if ask!(d, msg).is_some() {
                    ev(json!({"e":"ack","ok":true}));
                }
            }
            "remove" => {
                let site = s(&op[1]);
                ev(json!({"e":"remove","site":site}));
                let msg = RemoveCaptcha(site);
                if op[2] == true {
                    d.master.do_send(msg);
                } else if ask!(d, msg).is_some() {
                    ev(json!({"e":"ack","ok":true}));
                }
            }
            "rename" => {
                let (from, to) = (s(&op[1]), s(&op[2]));
                ev(json!({"e":"rename","from":from,"to":to,"t":clock()}));
                if let Some(x) = d.durs.get(&from).copied() {
                    d.durs.insert(to.clone(), x);
                }
                let msg = Rename { name: from, rename_to: to };
                if op[3] == true {
                    d.master.do_send(msg);
                } else if ask!(d, msg).is_some() {
                    ev(json!({"e":"ack","ok":true}));
                }
            }
            // a visit from start to end, ["visit" | "pow", site]
            "visit" | "pow" => {
                let site = s(&op[1]);
                d.vseq += 1;
                let id = format!("w{}", d.vseq);
                ev(json!({"e":"vcall","v":id,"site":site,"t":clock()}));
                d.noted(&site);
                if let Some((r, diff, dur)) = d.visit(&site, name).await {
                    ev(json!({"e":"vret","v":id,"res":r,"diff":diff,"dur":dur,"t":clock()}));
                }
            }
            // ["bulk", site, n]
            "bulk" => {
                let site = s(&op[1]);
                let n = u(&op[2]);
                let t = clock();
                d.noted(&site);
                let mut runs: Vec<(String, u64)> = vec![];
                let mut dur = json!(0);
                let mut ok = 0;
                for _ in 0..n {
                    match d.visit(&site, "visit").await {
                        Some((r, diff, du)) if r == "ok" => {
                            ok += 1;
                            dur = du;
                            let diff = s(&diff);
                            match runs.last_mut() {
                                Some(l) if l.0 == diff => l.1 += 1,
                                _ => runs.push((diff, 1)),
                            }
                        }
                        Some((r, ..)) => {
                            // reported like a single visit
                            d.vseq += 1;
                            let id = format!("w{}", d.vseq);
                            if ok > 0 {
                                ev(json!({"e":"visits","site":site,"n":ok,"runs":runs,"dur":dur,"t":t}));
                            }
                            ev(json!({"e":"vcall","v":id,"site":site,"t":t}));
                            ev(json!({"e":"vret","v":id,"res":r,"diff":"","dur":0,"t":t}));
                            ok = 0;
                            break;
                        }
                        None => break,
                    }
                }
                if ok > 0 && !d.over {
                    ev(json!({"e":"visits","site":site,"n":ok,"runs":runs,"dur":dur,"t":t}));
                }
            }
            // ["vcall", id, site, kind]: starts a visit
            "vcall" => {
                let id = s(&op[1]);
                let site = s(&op[2]);
                ev(json!({"e":"vcall","v":id,"site":site,"t":clock()}));
                d.noted(&site);
                let mut f = d.visit_future(&site, op[3].as_str().unwrap_or(""));
                match poll_once(&mut f).await {
                    Some((r, diff, dur)) => ev(json!({"e":"vret","v":id,"res":r,"diff":diff,"dur":dur,"t":clock()})),
                    None => {
                        d.visits.insert(id, f);
                    }
                }
            }
            "vdrop" => {
                let id = s(&op[1]);
                if d.visits.remove(&id).is_some() {
                    ev(json!({"e":"vdrop","v":id,"t":clock()}));
                }
            }
            // ["poll", id] / ["await", id...]
            "poll" | "await" => {
                for id in op.as_array().unwrap()[1..].iter().map(s) {
                    if let Some(mut f) = d.visits.remove(&id) {
                        let r = if name == "poll" {
                            poll_once(&mut f).await
                        } else {
                            match patient(&mut f).await {
                                None => {
                                    ev(json!({"e":"hang"}));
                                    d.over = true;
                                    None
                                }
                                x => x,
                            }
                        };
                        match r {
                            Some((r, diff, dur)) => {
                                if r == "dead" {
                                    ev(json!({"e":"dead"}));
                                    d.over = true;
                                } else {
                                    ev(json!({"e":"vret","v":id,"res":r,"diff":diff,"dur":dur,"t":clock()}))
                                }
                            }
                            None => {
                                d.visits.insert(id, f);
                            }
                        }
                    }
                }
            }
            "get" => {
                let site = s(&op[1]);
                if let Some(a) = d.counter(&site).await {
                    ev(json!({"e":"get","site":site,"found":a.is_some(),"t":clock()}));
                }
            }
            "count" => {
                let site = s(&op[1]);
                if let Some(a) = d.counter(&site).await {
                    ev(json!({"e":"get","site":site,"found":a.is_some(),"t":clock()}));
                    if let Some(a) = a {
                        match patient(async move { a.send(GetCurrentVisitorCount).await }).await {
                            Some(Ok(n)) => ev(json!({"e":"count","site":site,"count":n.min(i32::MAX as u32),"t":clock()})),
                            _ => ev(json!({"e":"count","site":site,"count":-1,"t":clock()})),
                        }
                    }
                }
            }
            // ["dump", index]
            "dump" => {
                if let Some(data) = ask!(d, GetInternalData) {
                    ev(json!({"e":"dump","snap":u(&op[1]),"data":describe_all(&data),"t":clock()}));
                    // kept in serialised form only
                    match serde_json::to_string(&data) {
                        Ok(txt) => {
                            d.dumps.insert(u(&op[1]), txt);
                        }
                        Err(_) => ev(json!({"e":"ack","ok":false})),
                    }
                }
            }
            // ["town", n, duration, wait, idle]: n more sites come, are visited once each,
            // loaded from a snapshot, and leave, or are left to themselves
            "town" => {
                let t = clock();
                let (n, dur, idle) = (u(&op[1]), u(&op[2]), op[4] == true);
                let name = |k: u64| format!("town {k}");
                let levels = |k: u64| json!([[1, 10 + k], [3, 20 + k]]);
                let fits = |data: &HashMap<String, MCaptcha>, d: &Driver, count: u32| {
                    (0..n)
                        .filter(|k| match data.get(&name(*k)) {
                            Some(m) => {
                                let l = d.build(dur, &levels(*k), 0, false);
                                m.get_visitors() == count && m.get_duration() == dur && m.get_defense() == l.get_defense()
                            }
                            None => false,
                        })
                        .count()
                };
                let mut there = vec![];
                'town: {
                    for k in 0..n {
                        let msg = AddSite { id: name(k), mcaptcha: d.build(dur, &levels(k), 0, false) };
                        if ask!(d, msg).is_none() {
                            break 'town;
                        }
                        beat();
                    }
                    match ask!(d, GetInternalData) {
                        Some(data) => there.push(fits(&data, &d, 0)),
                        None => break 'town,
                    }
                    drop(spinner);
                    d.wait(u(&op[3]), true).await;
                    let spinner = Spinner::new();
                    settle().await;
                    let mut own = 0;
                    for k in 0..n {
                        match d.visit(&name(k), "visit").await {
                            Some((r, diff, du)) => own += (r == "ok" && s(&diff) == (10 + k).to_string() && du == json!(ms(dur))) as u64,
                            None => break 'town,
                        }
                        beat();
                    }
                    for _ in 0..2 {
                        match ask!(d, GetInternalData) {
                            Some(data) => {
                                there.push(fits(&data, &d, 1));
                                let txt = serde_json::to_string(&data).unwrap();
                                let mut data: HashMap<String, MCaptcha> = serde_json::from_str(&txt).unwrap();
                                data.retain(|k, _| k.starts_with("town "));
                                if there.len() == 2 && ask!(d, SetInternalData { mcaptcha: data }).is_none() {
                                    break 'town;
                                }
                            }
                            None => break 'town,
                        }
                    }
                    let spinner = if idle {
                        drop(spinner);
                        // (a while after the last ones became idle)
                        d.wait(ms(dur) + gc_ms(d.gc).max(0) as u64 + 60 + 5, true).await;
                        Spinner::new()
                    } else {
                        for k in 0..n {
                            if ask!(d, RemoveCaptcha(name(k))).is_none() {
                                break 'town;
                            }
                            beat();
                        }
                        spinner
                    };
                    settle().await;
                    match ask!(d, GetInternalData) {
                        Some(data) => {
                            let left = data.keys().filter(|k| k.starts_with("town ")).count();
                            ev(json!({"e":"town","n":n,"idle":idle,"there":there,"own":own,"left":left,"t0":t,"t":clock()}));
                        }
                        None => break 'town,
                    }
                    drop(spinner);
                }
                continue;
            }
            // ["dcall", id]: starts taking a snapshot
            "dcall" => {
                let id = s(&op[1]);
                ev(json!({"e":"dcall","d":id,"t":clock()}));
                let m = d.master.clone();
                let mut f: Snapshot = Box::pin(async move {
                    match m.send(GetInternalData).await {
                        Ok(rx) => match rx.await {
                            Ok(Ok(x)) => Some(x),
                            _ => None,
                        },
                        Err(_) => None,
                    }
                });
                let r = poll_once(&mut f).await;
                if r.is_some() {
                    f = Box::pin(std::future::ready(r.unwrap()));
                }
                d.snapshots.insert(id, f);
            }
            // ["dawait", id]
            "dawait" => {
                let id = s(&op[1]);
                if let Some(mut f) = d.snapshots.remove(&id) {
                    match patient(&mut f).await {
                        None => {
                            ev(json!({"e":"hang"}));
                            d.over = true;
                        }
                        Some(None) => ev(json!({"e":"ack","ok":false})),
                        Some(Some(data)) => ev(json!({"e":"dret","d":id,"data":describe_all(&data),"t":clock()})),
                    }
                }
            }
            // ["restore", index, names | null, fire and forget]: from the serialised form.
            // The trace says what the snapshot held when it was taken.
            "restore" => {
                if !d.dumps.contains_key(&u(&op[1])) {
                    continue;
                }
                let data = match d.load(u(&op[1]), &op[2]) {
                    Some(x) => x,
                    None => {
                        ev(json!({"e":"ack","ok":false}));
                        continue;
                    }
                };
                let want = if op[2].is_array() { op[2].clone() } else { json!([]) };
                ev(json!({"e":"restore","snap":u(&op[1]),"all":!op[2].is_array(),"want":want,
                          "data":describe_all(&data),"t":clock()}));
                for (n, m) in &data {
                    d.durs.insert(n.clone(), ms(m.get_duration()));
                    d.noted(n);
                }
                let msg = SetInternalData { mcaptcha: data };
                if op[3] == true {
                    d.master.do_send(msg);
                } else if ask!(d, msg).is_some() {
                    ev(json!({"e":"ack","ok":true}));
                }
            }
            // ["cset", index, site]: through the counter itself
            "cset" => {
                let site = s(&op[2]);
                let data = match d.load(u(&op[1]), &json!([site])) {
                    Some(x) if x.contains_key(&site) => x,
                    _ => continue,
                };
                if let Some(a) = d.counter(&site).await {
                    ev(json!({"e":"get","site":site,"found":a.is_some(),"t":clock()}));
                    if let Some(a) = a {
                        ev(json!({"e":"restore","snap":u(&op[1]),"all":false,"want":[site],
                                  "data":describe_all(&data),"t":clock()}));
                        d.durs.insert(site.clone(), ms(data[&site].get_duration()));
                        d.noted(&site);
                        // and through the serialised form of a Counter
                        let c: Counter = data[&site].clone().into();
                        let txt = serde_json::to_string(&c).unwrap();
                        let m = match serde_json::from_str::<MCaptcha>(&txt) {
                            Ok(m) => m,
                            Err(_) => data[&site].clone(),
                        };
                        if !matches!(patient(async move { a.send(counter::SetInternalData(m)).await }).await, Some(Ok(()))) {
                            ev(json!({"e":"ack","ok":false}));
                        }
                    }
                }
            }
            // ["halt", site]: somebody stops the counter itself
            "halt" => {
                let site = s(&op[1]);
                if let Some(a) = d.counter(&site).await {
                    ev(json!({"e":"get","site":site,"found":a.is_some(),"t":clock()}));
                    if let Some(a) = a {
                        let _ = patient(async move { a.send(counter::Stop).await }).await;
                        ev(json!({"e":"halt","site":site,"t":clock()}));
                    }
                }
            }
            // a new registry takes over, the old one is forgotten
            "fresh" => {
                d.gc = op[1].as_i64().unwrap();
                d.visits.clear();
                d.snapshots.clear();
                d.master = start_master(d.gc);
                d.t0 = now();
                ev(json!({"e":"fresh","gc":gc_ms(d.gc)}));
            }
            "wait" => {
                d.wait(u(&op[1]), op[2] == true).await;
                if op[2] != true {
                    let _s = Spinner::new();
                    settle().await;
                }
            }
            // ["until", k, delta]: around the end of some visitor's time
            "until" => {
                let n = now();
                let mut ds: Vec<u64> = d.deadlines.iter().copied().filter(|x| *x > n + 10 && *x < n + 100_000_000).collect();
                ds.sort_unstable();
                ds.dedup();
                if !ds.is_empty() {
                    let dl = ds[u(&op[1]) as usize % ds.len()];
                    let t = (dl as i64 + op[2].as_i64().unwrap()).max(n as i64) as u64;
                    d.wait(t - n, op[3] == true).await;
                    if op[3] != true {
                        let _s = Spinner::new();
                        settle().await;
                    }
                }
            }
            // ["gcwait", offset in ms]: to a cleanup round
            "gcwait" => {
                if d.gc > 0 {
                    let p = gc_ms(d.gc) as u64;
                    let n = now();
                    let k = (n - d.t0) / p + 1;
                    let t = (d.t0 + k * p) as i64 + op[1].as_i64().unwrap();
                    d.wait((t - n as i64).max(0) as u64, true).await;
                }
            }
            "yield" => {
                for _ in 0..u(&op[1]) {
                    fine_yield().await;
                }
            }
            "settle" => {
                for _ in 0..4 {
                    settle().await;
                }
            }
            o => panic!("unknown op {o}"),
        }
        drop(spinner);
    }
    // the rest of a script that ended early is not judged
    let _s = Spinner::new();
    settle().await;
}

// ---------------------------------------------------------------------------
// Users on real threads, each with sites of its own

fn block_on<F: Future>(f: F) -> Option<F::Output> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(40), f).await.ok() })
}

fn run_threads(sc: &Value) {
    let gc = sc["gc"].as_i64().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    let (stop_tx, stop_rx) = tokio::sync::oneshot::channel::<()>();
    let sysj = std::thread::spawn(move || {
        actix_rt::System::new().block_on(async move {
            let a = actix_rt::Arbiter::new();
            let master = Master::start_in_arbiter(&a.handle(), move |_| {
                Master::new(if gc < 0 { 1_000_000_000 } else { gc as u64 })
            });
            tx.send(master).unwrap();
            let _ = stop_rx.await;
            a.stop();
        });
    });
    let master = rx.recv().unwrap();
    ev(json!({"e":"reset","gc":gc_ms(gc),"slack":60_000}));
    // one operation, awaited; false: give up
    fn ask<M>(m: &Addr<Master>, msg: M) -> bool
    where
        M: Message<Result = tokio::sync::oneshot::Receiver<Result<(), CaptchaError>>> + Send + 'static,
        Master: Handler<M>,
    {
        let m = m.clone();
        match block_on(async move {
            match m.send(msg).await {
                Ok(rx) => Ok(rx.await),
                Err(e) => Err(e),
            }
        }) {
            None => ev(json!({"e":"hang"})),
            Some(Err(_)) => ev(json!({"e":"dead"})),
            Some(Ok(Ok(Ok(())))) => {
                ev(json!({"e":"ack","ok":true}));
                return true;
            }
            Some(Ok(_)) => ev(json!({"e":"ack","ok":false})),
        }
        false
    }
    let mut js = vec![];
    for (th, ops) in sc["threads"].as_array().unwrap().iter().cloned().enumerate() {
        let master = master.clone();
        js.push(std::thread::spawn(move || {
            let mut n = 0;
            for op in ops.as_array().unwrap() {
                let site = s(&op[1]);
                match op[0].as_str().unwrap() {
                    "add" => {
                        let m = mcaptcha(&levels_of(&op[3]), u(&op[2]));
                        let mut e = describe(&site, &m);
                        e["e"] = json!("add");
                        e["t"] = json!(0);
                        ev(e);
                        if !ask(&master, AddSite { id: site, mcaptcha: m }) {
                            return;
                        }
                    }
                    "remove" => {
                        ev(json!({"e":"remove","site":site}));
                        if !ask(&master, RemoveCaptcha(site)) {
                            return;
                        }
                    }
                    "rename" => {
                        let to = s(&op[2]);
                        ev(json!({"e":"rename","from":site,"to":to,"t":0}));
                        if !ask(&master, Rename { name: site, rename_to: to }) {
                            return;
                        }
                    }
                    _ => {
                        n += 1;
                        let id = format!("t{th}-{n}");
                        ev(json!({"e":"vcall","v":id,"site":site,"t":0}));
                        let m = master.clone();
                        let r = block_on(async move {
                            visit_result(match m.send(AddVisitor(site)).await {
                                Ok(rx) => Ok(rx.await),
                                Err(e) => Err(e),
                            })
                        });
                        match r {
                            None => {
                                ev(json!({"e":"hang"}));
                                return;
                            }
                            Some((r, ..)) if r == "dead" => {
                                ev(json!({"e":"dead"}));
                                return;
                            }
                            Some((r, diff, dur)) => {
                                ev(json!({"e":"vret","v":id,"res":r,"diff":diff,"dur":dur,"t":0}))
                            }
                        }
                    }
                }
            }
        }));
    }
    for j in js {
        j.join().expect("user thread");
    }
    let m = master.clone();
    if let Some(Ok(Ok(Ok(data)))) = block_on(async move {
        match m.send(GetInternalData).await {
            Ok(rx) => Ok(rx.await),
            Err(e) => Err(e),
        }
    }) {
        ev(json!({"e":"dump","snap":1,"data":describe_all(&data),"t":0}));
    } else {
        ev(json!({"e":"dead"}));
    }
    let _ = stop_tx.send(());
    let _ = sysj.join();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    quiet_panics();
    open_log(&a[2]);
    watchdog(60);
    let scripts = read_scripts(&a[1]);
    let (threads, seqs): (Vec<Value>, Vec<Value>) = scripts.into_iter().partition(|x| x["mode"] == "threads");
    for sc in seqs {
        run_virtual(move || async move { run_script(&sc).await });
        flush_log();
    }
    for sc in &threads {
        run_threads(sc);
        flush_log();
    }
    finish();
}
