//! A Redis server with the mCaptcha module, as far as libmcaptcha can tell: enough of the
//! protocol and of the commands, with a clock that is set from outside, replies that can
//! be withheld and faults that can be ordered. It runs on the caller's own runtime and
//! records every command it receives.
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet, VecDeque};
use std::future::Future;
use std::rc::Rc;

use serde_json::{json, Value};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use tokio::net::{TcpListener, UnixListener};

pub const COMMANDS: [&str; 9] = [
    "MCAPTCHA_CACHE.ADD_VISITOR",
    "MCAPTCHA_CACHE.ADD_CAPTCHA",
    "MCAPTCHA_CACHE.DELETE_CAPTCHA",
    "MCAPTCHA_CACHE.CAPTCHA_EXISTS",
    "MCAPTCHA_CACHE.GET",
    "MCAPTCHA_CACHE.ADD_CHALLENGE",
    "MCAPTCHA_CACHE.GET_CHALLENGE",
    "MCAPTCHA_CACHE.DELETE_CHALLENGE",
    "MCAPTCHA_CACHE.RENAME_CAPTCHA",
];

#[derive(Clone, Debug)]
pub enum R {
    Simple(&'static str),
    Err(String),
    Int(i64),
    Bulk(Vec<u8>),
    Nil,
    Arr(Vec<R>),
}

impl R {
    fn s(x: &str) -> R {
        R::Bulk(x.as_bytes().to_vec())
    }
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            R::Simple(x) => o.extend(format!("+{x}\r\n").bytes()),
            R::Err(x) => o.extend(format!("-{x}\r\n").bytes()),
            R::Int(x) => o.extend(format!(":{x}\r\n").bytes()),
            R::Bulk(b) => {
                o.extend(format!("${}\r\n", b.len()).bytes());
                o.extend(b);
                o.extend(b"\r\n");
            }
            R::Nil => o.extend(b"$-1\r\n"),
            R::Arr(v) => {
                o.extend(format!("*{}\r\n", v.len()).bytes());
                for x in v {
                    x.put(o);
                }
            }
        }
    }
}

struct Site {
    levels: Vec<(u64, u64)>,
    dur: u64,
    visits: Vec<u64>,
}

/// What a command does to the data, apart from the reply.
pub struct Done {
    pub reply: R,
    /// the answer, for the record
    pub ans: Value,
}

pub type Intern = Rc<RefCell<dyn FnMut(&str) -> String>>;

pub struct Srv {
    now: Box<dyn Fn() -> u64>,
    log: Box<dyn Fn(Value)>,
    pub intern: Intern,
    pub modules: Vec<String>,
    pub missing: HashSet<String>,
    sites: HashMap<String, Site>,
    chal: HashMap<(String, String), (u64, u64, u64)>,
    keys: HashMap<Vec<u8>, (Vec<u8>, Option<u64>)>,
    /// faults for the commands to come: (client or "", kind)
    pub faults: VecDeque<(String, String)>,
    /// answers for the commands to come instead of the computed ones: seeds
    pub odd_answers: Option<u64>,
    /// the last fault that befell a command of the set-up
    pub setup_fault: String,
    pub hold: bool,
    pub hold_reply: bool,
    pub record: bool,
    conns: HashMap<u64, tokio::task::JoinHandle<()>>,
    next_conn: u64,
    pub commands: u64,
    listeners: Vec<tokio::task::JoinHandle<()>>,
}

#[derive(Clone)]
pub struct Server {
    pub s: Rc<RefCell<Srv>>,
    wake: Rc<tokio::sync::Notify>,
    path: String,
    pub port: Rc<Cell<u16>>,
}

enum Act {
    Reply(Vec<u8>),
    Late(Vec<u8>),
    CloseAfter(Vec<u8>),
}

impl Server {
    pub fn new(path: String, now: Box<dyn Fn() -> u64>, log: Box<dyn Fn(Value)>, intern: Intern) -> Server {
        let s = Server {
            s: Rc::new(RefCell::new(Srv {
                now,
                log,
                intern,
                modules: vec!["mcaptcha_cache".into()],
                missing: HashSet::new(),
                sites: HashMap::new(),
                chal: HashMap::new(),
                keys: HashMap::new(),
                faults: VecDeque::new(),
                odd_answers: None,
                setup_fault: String::new(),
                hold: false,
                hold_reply: false,
                record: true,
                conns: HashMap::new(),
                next_conn: 0,
                commands: 0,
                listeners: vec![],
            })),
            wake: Rc::new(tokio::sync::Notify::new()),
            path,
            port: Rc::new(Cell::new(0)),
        };
        s.up();
        s
    }

    /// Address for a client of that name.
    pub fn url(&self, client: &str) -> String {
        format!("redis+unix://{}?user={client}&pass=x", self.path)
    }

    /// Starts to listen.
    pub fn up(&self) {
        let _ = std::fs::remove_file(&self.path);
        let l = UnixListener::bind(&self.path).expect("bind");
        let me = self.clone();
        let h = actix_rt::spawn(async move {
            while let Ok((c, _)) = l.accept().await {
                me.accept(Box::new(c));
            }
        });
        self.s.borrow_mut().listeners.push(h);
    }

    /// Listens on a port too.
    pub async fn up_tcp(&self) {
        let l = TcpListener::bind("127.0.0.1:0").await.expect("bind");
        self.port.set(l.local_addr().unwrap().port());
        let me = self.clone();
        let h = actix_rt::spawn(async move {
            while let Ok((c, _)) = l.accept().await {
                me.accept(Box::new(c));
            }
        });
        self.s.borrow_mut().listeners.push(h);
    }

    /// No connection gets through, and those there are break.
    pub fn down(&self) {
        let _ = std::fs::remove_file(&self.path);
        for l in self.s.borrow_mut().listeners.drain(..) {
            l.abort();
        }
        self.kill();
    }

    /// Breaks all connections.
    pub fn kill(&self) {
        for (_, c) in self.s.borrow_mut().conns.drain() {
            c.abort();
        }
    }

    pub fn notify(&self) {
        self.wake.notify_waiters();
    }

    fn accept(&self, c: Box<dyn Conn>) {
        let me = self.clone();
        let id = {
            let mut s = self.s.borrow_mut();
            s.next_conn += 1;
            s.next_conn
        };
        let h = actix_rt::spawn(async move {
            me.serve(c).await;
            me.s.borrow_mut().conns.remove(&id);
        });
        self.s.borrow_mut().conns.insert(id, h);
    }

    /// Commands are executed as they arrive; an answer that is late holds up those after it.
    async fn serve(&self, c: Box<dyn Conn>) {
        let (mut rd, mut wr) = tokio::io::split(c);
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<(tokio::time::Instant, Vec<u8>, bool)>();
        let writer = async move {
            while let Some((at, b, close)) = rx.recv().await {
                if at > tokio::time::Instant::now() {
                    tokio::time::sleep_until(at).await;
                }
                if wr.write_all(&b).await.is_err() || close {
                    return;
                }
            }
        };
        let reader = async move {
            let mut client = String::new();
            let mut buf: Vec<u8> = vec![];
            loop {
                let cmd = loop {
                    if let Some((cmd, n)) = parse(&buf) {
                        buf.drain(..n);
                        break cmd;
                    }
                    let mut b = vec![0; 4096];
                    match rd.read(&mut b).await {
                        Ok(n) if n > 0 => buf.extend(&b[..n]),
                        _ => return,
                    }
                };
                let name = String::from_utf8_lossy(&cmd[0]).to_uppercase();
                let at = tokio::time::Instant::now();
                if name == "AUTH" {
                    client = String::from_utf8_lossy(&cmd[1]).to_string();
                }
                if matches!(name.as_str(), "AUTH" | "CLIENT" | "SELECT" | "READONLY") {
                    let _ = tx.send((at, b"+OK\r\n".to_vec(), false));
                    continue;
                }
                loop {
                    let w = self.wake.notified();
                    if !self.s.borrow().hold {
                        break;
                    }
                    w.await;
                }
                let act = self.s.borrow_mut().command(&client, &name, &cmd, self.port.get());
                let at = tokio::time::Instant::now();
                loop {
                    let w = self.wake.notified();
                    if !self.s.borrow().hold_reply {
                        break;
                    }
                    w.await;
                }
                let _ = match act {
                    Act::Reply(b) => tx.send((at, b, false)),
                    Act::Late(b) => tx.send((at + std::time::Duration::from_millis(800), b, false)),
                    Act::CloseAfter(b) => {
                        let _ = tx.send((at, b, true));
                        std::future::pending::<()>().await;
                        Ok(())
                    }
                };
            }
        };
        let (mut writer, mut reader) = (Box::pin(writer), Box::pin(reader));
        std::future::poll_fn(move |cx| {
            // what is left to be sent comes first
            if writer.as_mut().poll(cx).is_ready() || reader.as_mut().poll(cx).is_ready() {
                return std::task::Poll::Ready(());
            }
            std::task::Poll::Pending
        })
        .await;
    }
}

/// One command, as an array of bulk strings.
fn parse(b: &[u8]) -> Option<(Vec<Vec<u8>>, usize)> {
    fn line(b: &[u8], at: usize) -> Option<(&[u8], usize)> {
        let e = b[at..].windows(2).position(|w| w == b"\r\n")?;
        Some((&b[at..at + e], at + e + 2))
    }
    if b.is_empty() {
        return None;
    }
    assert_eq!(b[0], b'*', "command expected");
    let (n, mut at) = line(b, 1)?;
    let n: usize = std::str::from_utf8(n).unwrap().parse().unwrap();
    let mut out = vec![];
    for _ in 0..n {
        if at >= b.len() {
            return None;
        }
        assert_eq!(b[at], b'$', "bulk string expected");
        let (l, p) = line(b, at + 1)?;
        let l: usize = std::str::from_utf8(l).unwrap().parse().unwrap();
        if b.len() < p + l + 2 {
            return None;
        }
        out.push(b[p..p + l].to_vec());
        at = p + l + 2;
    }
    Some((out, at))
}

fn mix(seed: &mut u64) -> u64 {
    *seed = seed.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *seed;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Srv {
    fn name(&self, b: &[u8]) -> String {
        (self.intern.borrow_mut())(&String::from_utf8_lossy(b))
    }

    /// The next fault for this client, if one is due.
    fn fault(&mut self, client: &str) -> String {
        let hit = self.faults.iter().position(|f| f.0.is_empty() || f.0 == client);
        match hit {
            Some(i) => self.faults.remove(i).unwrap().1,
            None => String::new(),
        }
    }

    fn command(&mut self, client: &str, name: &str, a: &[Vec<u8>], port: u16) -> Act {
        if name == "CLUSTER" {
            let node = R::Arr(vec![R::s("127.0.0.1"), R::Int(port as i64), R::s("node1")]);
            let mut o = vec![];
            R::Arr(vec![R::Arr(vec![R::Int(0), R::Int(16383), node])]).put(&mut o);
            return Act::Reply(o);
        }
        self.commands += 1;
        let f = self.fault(client);
        let setup = matches!(name, "MODULE" | "COMMAND");
        if setup && !f.is_empty() {
            self.setup_fault = f.clone();
        }
        if f == "closebefore" {
            if !setup {
                self.note(client, name, a, false, &f, json!({"k":"none"}));
            }
            return Act::CloseAfter(vec![]);
        }
        let x = f != "error";
        let done = if x {
            self.execute(name, a)
        } else {
            Done { reply: R::Err("ERR out of order".into()), ans: json!({"k":"none"}) }
        };
        let mut reply = done.reply;
        let is_err = matches!(reply, R::Err(_));
        // an error reply stays what it is
        let f = if is_err && matches!(f.as_str(), "wrongtype" | "garbage" | "fields" | "nil" | "range" | "binary") {
            String::new()
        } else {
            f
        };
        match f.as_str() {
            "wrongtype" => {
                reply = match reply {
                    R::Int(_) => R::s("{}"),
                    R::Bulk(_) => R::Int(1),
                    _ => R::Arr(vec![R::Int(3)]),
                }
            }
            "garbage" => {
                reply = match reply {
                    R::Int(_) => R::s("many"),
                    R::Bulk(_) => R::s("{\"duration\": "),
                    _ => R::s("what?"),
                }
            }
            "fields" => {
                reply = match reply {
                    R::Int(_) => R::Arr(vec![]),
                    R::Bulk(_) => R::s("{\"duration\": 5}"),
                    _ => R::Arr(vec![]),
                }
            }
            "range" => {
                let n = [-1, 2, i32::MIN as i64, 3, i32::MAX as i64, -2, 256, 65537][self.commands as usize % 8];
                reply = match reply {
                    R::Int(_) => R::Int(n),
                    R::Bulk(_) => R::s("{\"duration\": -3, \"difficulty_factor\": 99999999999}"),
                    _ => R::Int(n),
                }
            }
            "binary" => {
                reply = R::Bulk(vec![0xff, 0xfe, 0, 1]);
            }
            "nil" => reply = R::Nil,
            _ => (),
        }
        if !setup {
            self.note(client, name, a, x, &f, done.ans);
        }
        let mut o = vec![];
        reply.put(&mut o);
        match f.as_str() {
            "closeafter" => Act::CloseAfter(vec![]),
            "partial" => {
                let n = o.len();
                Act::CloseAfter(o[..n / 2].to_vec())
            }
            "late" => Act::Late(o),
            "junk" => Act::CloseAfter(b"!!junk!!\r\n".to_vec()),
            _ => Act::Reply(o),
        }
    }

    fn note(&self, client: &str, name: &str, a: &[Vec<u8>], x: bool, f: &str, ans: Value) {
        if !self.record {
            return;
        }
        let short = name.strip_prefix("MCAPTCHA_CACHE.").unwrap_or(name);
        let args: Vec<String> = a[1..].iter().map(|b| self.name(b)).collect();
        let mut e = json!({"e":"recv","c":client,"cmd":short,"a":args,"x":x,"f":f,"ans":ans});
        match short {
            "ADD_CAPTCHA" => e["cfg"] = cfg(a.get(2)),
            "ADD_CHALLENGE" => {
                let v: Value = a.get(2).and_then(|p| serde_json::from_slice(p).ok()).unwrap_or(Value::Null);
                e["ch"] = json!({
                    "str": v["challenge"].as_str().map(|s| self.name(s.as_bytes())).unwrap_or_default(),
                    "diff": v["difficulty"].to_string(),
                    "dur": v["duration"].to_string()});
            }
            _ => (),
        }
        (self.log)(e);
    }

    fn live(&mut self) -> u64 {
        let now = (self.now)();
        self.chal.retain(|_, v| v.2 > now);
        self.keys.retain(|_, v| v.1.map(|d| d > now).unwrap_or(true));
        for s in self.sites.values_mut() {
            s.visits.retain(|d| *d > now);
        }
        now
    }

    fn odd(&mut self) -> Option<u64> {
        self.odd_answers.as_mut().map(mix)
    }

    fn execute(&mut self, name: &str, a: &[Vec<u8>]) -> Done {
        let now = self.live();
        let ok = || Done { reply: R::Simple("OK"), ans: json!({"k":"ok"}) };
        let err = |m: &str| Done { reply: R::Err(format!("ERR {m}")), ans: json!({"k":"err"}) };
        let int = |n: i64| Done { reply: R::Int(n), ans: json!({"k":"int","v":n.to_string()}) };
        let st = |i: usize| a.get(i).map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or_default();
        if let Some(u) = COMMANDS.iter().find(|c| **c == name) {
            if self.missing.contains(*u) {
                return err("unknown command");
            }
        }
        match name {
            "PING" => Done { reply: R::Simple("PONG"), ans: json!({"k":"ok"}) },
            "MODULE" => Done {
                reply: R::Arr(
                    self.modules
                        .iter()
                        .map(|m| {
                            R::Arr(vec![
                                R::s("name"),
                                R::s(m),
                                R::s("ver"),
                                R::Int(1),
                                R::s("path"),
                                R::s("/usr/lib/redis/module.so"),
                                R::s("args"),
                                R::Arr(vec![]),
                            ])
                        })
                        .collect(),
                ),
                ans: json!({}),
            },
            "COMMAND" => Done {
                reply: R::Arr(
                    a[2..]
                        .iter()
                        .map(|c| {
                            let n = String::from_utf8_lossy(c).to_uppercase();
                            if COMMANDS.contains(&n.as_str()) && !self.missing.contains(&n) {
                                R::Arr(vec![
                                    R::s(&n.to_lowercase()),
                                    R::Int(-1),
                                    R::Arr(vec![R::Simple("write")]),
                                    R::Int(0),
                                    R::Int(0),
                                    R::Int(0),
                                ])
                            } else {
                                R::Nil
                            }
                        })
                        .collect(),
                ),
                ans: json!({}),
            },
            "MCAPTCHA_CACHE.ADD_CAPTCHA" => {
                let c = cfg(a.get(2));
                if c["ok"] != true || a.len() != 3 {
                    return err("bad payload");
                }
                let n = |v: &Value| v.as_str().unwrap().parse::<u64>().unwrap();
                let levels = c["levels"].as_array().unwrap().iter().map(|l| (n(&l[0]), n(&l[1]))).collect();
                self.sites.insert(st(1), Site { levels, dur: n(&c["dur"]), visits: vec![] });
                ok()
            }
            "MCAPTCHA_CACHE.ADD_VISITOR" => {
                let odd = self.odd();
                let odd2 = self.odd();
                match self.sites.get_mut(&st(1)) {
                    None => err("no such captcha"),
                    Some(s) => {
                        s.visits.push(now.saturating_add(s.dur.saturating_mul(1000)));
                        let n = s.visits.len() as u64;
                        let mut diff = s.levels.iter().find(|l| n <= l.0).or(s.levels.last()).map(|l| l.1).unwrap_or(1);
                        let mut dur = s.dur;
                        if let (Some(x), Some(y)) = (odd, odd2) {
                            diff = [1, u32::MAX as u64, x as u32 as u64, x % 1000][(x >> 40) as usize % 4];
                            dur = [1, u64::MAX, y, y % 100000, i64::MAX as u64][(y >> 40) as usize % 5];
                        }
                        Done {
                            reply: R::s(&format!("{{\"duration\":{dur},\"difficulty_factor\":{diff}}}")),
                            ans: json!({"k":"visit","dur":dur.to_string(),"diff":diff.to_string()}),
                        }
                    }
                }
            }
            "MCAPTCHA_CACHE.DELETE_CAPTCHA" => match self.sites.remove(&st(1)) {
                Some(_) => ok(),
                None => err("no such captcha"),
            },
            "MCAPTCHA_CACHE.RENAME_CAPTCHA" => match self.sites.remove(&st(1)) {
                Some(s) => {
                    self.sites.insert(st(2), s);
                    ok()
                }
                None => err("no such captcha"),
            },
            // 1 means that there is none
            "MCAPTCHA_CACHE.CAPTCHA_EXISTS" => {
                let b = self.sites.contains_key(&st(1));
                Done { reply: R::Int(!b as i64), ans: json!({"k":"bool","v":b}) }
            }
            "MCAPTCHA_CACHE.GET" => {
                let odd = self.odd();
                match self.sites.get(&st(1)) {
                    None => err("no such captcha"),
                    Some(s) => {
                        let n = s.visits.len() as i64;
                        int(odd.map(|x| [n, (x >> 1) as i64, (x % 1000) as i64][(x >> 40) as usize % 3]).unwrap_or(n))
                    }
                }
            }
            "MCAPTCHA_CACHE.ADD_CHALLENGE" => {
                let v: Value = a.get(2).and_then(|p| serde_json::from_slice(p).ok()).unwrap_or(Value::Null);
                match (v["challenge"].as_str(), v["difficulty"].as_u64(), v["duration"].as_u64()) {
                    (Some(c), Some(d), Some(t)) => {
                        let dl = now.saturating_add(t.saturating_mul(1000));
                        self.chal.insert((st(1), c.to_string()), (d, t, dl));
                        ok()
                    }
                    _ => err("bad payload"),
                }
            }
            // takes the challenge out
            "MCAPTCHA_CACHE.GET_CHALLENGE" => match self.chal.remove(&(st(1), st(2))) {
                Some((d, t, _)) => Done {
                    reply: R::s(&format!("{{\"duration\":{t},\"difficulty_factor\":{d}}}")),
                    ans: json!({"k":"chal","dur":t.to_string(),"diff":d.to_string()}),
                },
                None => err("no such challenge"),
            },
            "MCAPTCHA_CACHE.DELETE_CHALLENGE" => match self.chal.remove(&(st(1), st(2))) {
                Some(_) => ok(),
                None => err("no such challenge"),
            },
            "SET" | "SETEX" => {
                let (val, ttl) = if name == "SETEX" {
                    (a[3].clone(), Some(st(2)))
                } else {
                    let ex = a[3..].iter().position(|x| x.eq_ignore_ascii_case(b"EX"));
                    (a[2].clone(), ex.map(|i| st(i + 4)))
                };
                let dl = match ttl {
                    None => None,
                    Some(t) => match t.parse::<i64>() {
                        Err(_) => return err("value is not an integer or out of range"),
                        Ok(n) if n <= 0 || n > i64::MAX / 1000 - (1 << 42) => return err("invalid expire time in 'set' command"),
                        Ok(n) => Some(now + n as u64 * 1000),
                    },
                };
                self.keys.insert(a[1].clone(), (val, dl));
                ok()
            }
            "GET" => match self.keys.get(&a[1]) {
                Some(v) => Done { reply: R::Bulk(v.0.clone()), ans: json!({"k":"ok"}) },
                None => Done { reply: R::Nil, ans: json!({"k":"ok"}) },
            },
            "GETDEL" => match self.keys.remove(&a[1]) {
                Some(v) => Done { reply: R::Bulk(v.0), ans: json!({"k":"ok"}) },
                None => Done { reply: R::Nil, ans: json!({"k":"ok"}) },
            },
            "EXISTS" => int(a[1..].iter().filter(|k| self.keys.contains_key(*k)).count() as i64),
            "DEL" | "UNLINK" => {
                let n = a[1..].iter().filter(|k| self.keys.remove(*k).is_some()).count();
                int(n as i64)
            }
            "EXPIRE" => {
                let t: u64 = st(2).parse().unwrap_or(0);
                match self.keys.get_mut(&a[1]) {
                    Some(v) => {
                        v.1 = Some(now + t * 1000);
                        int(1)
                    }
                    None => int(0),
                }
            }
            "PERSIST" => match self.keys.get_mut(&a[1]) {
                Some(v) => {
                    v.1 = None;
                    int(1)
                }
                None => int(0),
            },
            _ => err(&format!("unknown command '{name}'")),
        }
    }
}

/// The configuration in a registration, in comparable form.
fn cfg(p: Option<&Vec<u8>>) -> Value {
    let v: Value = p.and_then(|p| serde_json::from_slice(p).ok()).unwrap_or(Value::Null);
    let mut levels = vec![];
    let mut ok = v["duration"].is_u64();
    match v["levels"].as_array() {
        None => ok = false,
        Some(ls) => {
            for l in ls {
                ok &= l["visitor_threshold"].is_u64() && l["difficulty_factor"].is_u64();
                levels.push(json!([l["visitor_threshold"].to_string(), l["difficulty_factor"].to_string()]));
            }
        }
    }
    json!({"ok": ok, "levels": levels, "dur": v["duration"].to_string()})
}

trait Conn: AsyncRead + AsyncWrite + Unpin {}
impl<T: AsyncRead + AsyncWrite + Unpin> Conn for T {}
