//! Replays scripts of submissions on the real verification queue (queue::Manager), with jobs
//! that start and end under control of the script. "settle" waits until every thread of the
//! process is asleep, so that nothing is left that could still happen.
use harness::*;
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::queue::{Manager, Runnable};
use rand::{Rng, SeedableRng};
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

static LIVE: AtomicI64 = AtomicI64::new(0);

// ---------------------------------------------------------------------------
// Jobs

#[derive(Default)]
struct Gate {
    open: Mutex<bool>,
    cv: Condvar,
}
impl Gate {
    fn open(&self) {
        *self.open.lock().unwrap() = true;
        self.cv.notify_all();
    }
    fn pass(&self) {
        let mut g = self.open.lock().unwrap();
        while !*g {
            g = self.cv.wait(g).unwrap();
        }
    }
}

/// ids of the jobs running, in the order they started
static RUNNING: Mutex<Vec<u64>> = Mutex::new(Vec::new());

struct Job {
    id: u64,
    gate: Arc<Gate>,
}
impl Job {
    fn new(id: u64, gate: Arc<Gate>) -> Box<Self> {
        LIVE.fetch_add(1, Ordering::SeqCst);
        Box::new(Job { id, gate })
    }
}
impl Drop for Job {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Ordering::SeqCst);
    }
}
impl Runnable for Job {
    fn run(&self) {
        {
            let mut r = RUNNING.lock().unwrap();
            ev(json!({"e":"start","id":self.id}));
            r.push(self.id);
        }
        self.gate.pass();
        let mut r = RUNNING.lock().unwrap();
        r.retain(|x| *x != self.id);
        ev(json!({"e":"finish","id":self.id}));
    }
}

struct Counted {
    runs: Arc<Vec<AtomicU32>>,
    i: usize,
    spin: u64,
}
impl Counted {
    fn new(runs: Arc<Vec<AtomicU32>>, i: usize, spin: u64) -> Box<Self> {
        LIVE.fetch_add(1, Ordering::SeqCst);
        Box::new(Counted { runs, i, spin })
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Ordering::SeqCst);
    }
}
impl Runnable for Counted {
    fn run(&self) {
        for _ in 0..self.spin {
            std::hint::spin_loop();
        }
        self.runs[self.i].fetch_add(1, Ordering::SeqCst);
    }
}

// ---------------------------------------------------------------------------
// Rest

fn self_tid() -> String {
    let l = std::fs::read_link("/proc/thread-self").unwrap();
    l.file_name().unwrap().to_string_lossy().into_owned()
}

/// tid -> (state, context switches) of every thread but those in `skip`
fn threads(skip: &HashSet<String>) -> BTreeMap<String, (char, u64)> {
    let mut m = BTreeMap::new();
    for t in std::fs::read_dir("/proc/self/task").unwrap().flatten() {
        let tid = t.file_name().to_string_lossy().into_owned();
        if skip.contains(&tid) {
            continue;
        }
        let Ok(s) = std::fs::read_to_string(t.path().join("status")) else {
            continue;
        };
        let mut st = '?';
        let mut n = 0;
        for l in s.lines() {
            if let Some(v) = l.strip_prefix("State:") {
                st = v.trim().chars().next().unwrap();
            } else if let Some(v) = l.strip_prefix("voluntary_ctxt_switches:") {
                n += v.trim().parse::<u64>().unwrap();
            } else if let Some(v) = l.strip_prefix("nonvoluntary_ctxt_switches:") {
                n += v.trim().parse::<u64>().unwrap();
            }
        }
        m.insert(tid, (st, n));
    }
    m
}

/// Every other thread sleeps, and none ran between two looks: nobody is left to wake anybody up.
fn at_rest(skip: &HashSet<String>) -> bool {
    let a = threads(skip);
    if a.values().any(|(s, _)| *s != 'S') {
        return false;
    }
    a == threads(skip)
}

fn rest(skip: &HashSet<String>, secs: u64) -> bool {
    let t = Instant::now();
    let mut n = 0;
    loop {
        if at_rest(skip) {
            return true;
        }
        if t.elapsed() > Duration::from_secs(secs) {
            return false;
        }
        n += 1;
        if n > 50 {
            std::thread::sleep(Duration::from_micros(200));
        } else {
            std::thread::yield_now();
        }
    }
}

// ---------------------------------------------------------------------------

type Res = Result<(), CaptchaError>;
type Fut = Pin<Box<dyn Future<Output = Res> + Send>>;

fn res(r: &Res) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(CaptchaError::QueueFull) => "full",
        Err(_) => "err",
    }
}

fn poll(f: &mut Fut) -> Option<Res> {
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(r) => Some(r),
        Poll::Pending => None,
    }
}

struct Park(std::thread::Thread);
impl std::task::Wake for Park {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}
fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = Waker::from(Arc::new(Park(std::thread::current())));
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        std::thread::park();
    }
}

fn submit(m: &Arc<Manager>, ip: &str, job: Box<dyn Runnable>) -> Fut {
    let m = m.clone();
    let ip = ip.to_string();
    Box::pin(async move { m.add(ip, job).await })
}

struct Script {
    mgr: Option<Arc<Manager>>,
    gates: BTreeMap<u64, Arc<Gate>>,
    calls: BTreeMap<u64, Fut>,
    helpers: Vec<std::thread::JoinHandle<()>>,
    dropping: Option<std::thread::JoinHandle<()>>,
    dropped: bool,
    ended: bool,
    skip: HashSet<String>,
    base: usize,
}

fn hang() -> ! {
    ev(json!({"e":"hang"}));
    finish()
}

impl Script {
    fn rets(&mut self) {
        let ids: Vec<u64> = self.calls.keys().copied().collect();
        for id in ids {
            if let Some(r) = poll(self.calls.get_mut(&id).unwrap()) {
                self.calls.remove(&id);
                ev(json!({"e":"ret","id":id,"res":res(&r)}));
            }
        }
    }

    fn settle(&mut self) {
        if !rest(&self.skip, 30) {
            hang();
        }
        self.helpers.retain(|h| !h.is_finished());
        self.rets();
        self.drop_done();
        if !self.ended {
            ev(json!({"e":"settled"}));
        }
    }

    fn release(&self, k: u64) {
        let id = {
            let r = RUNNING.lock().unwrap();
            if r.is_empty() {
                return;
            }
            r[k as usize % r.len()]
        };
        self.gates[&id].open();
    }

    fn start_drop(&mut self) {
        if self.dropped {
            return;
        }
        // whoever still waits for an answer keeps the queue alive
        for h in self.helpers.drain(..) {
            let t = Instant::now();
            while !h.is_finished() {
                if t.elapsed() > Duration::from_secs(30) {
                    hang();
                }
                std::thread::sleep(Duration::from_micros(100));
            }
        }
        let ids: Vec<u64> = self.calls.keys().copied().collect();
        for id in ids {
            self.calls.remove(&id);
            ev(json!({"e":"abandon","id":id}));
        }
        self.dropped = true;
        let m = self.mgr.take().unwrap();
        ev(json!({"e":"dropc"}));
        self.dropping = Some(std::thread::spawn(move || drop(m)));
    }

    fn drop_done(&mut self) {
        if self.dropping.as_ref().map(|h| h.is_finished()).unwrap_or(false) {
            let r = self.dropping.take().unwrap().join();
            ev(json!({"e":"dropr","panic":r.is_err()}));
            self.ended = true;
        }
    }

    fn finish(mut self) {
        self.start_drop();
        if !self.ended {
            self.settle();
        }
        while !self.ended {
            let left = !RUNNING.lock().unwrap().is_empty();
            if left {
                self.release(0);
                self.settle();
            } else {
                // nothing runs: the drop must come back by itself
                let t = Instant::now();
                while !self.ended {
                    self.drop_done();
                    if t.elapsed() > Duration::from_secs(5) {
                        hang();
                    }
                    if RUNNING.lock().unwrap().is_empty() {
                        std::thread::yield_now();
                    } else {
                        break;
                    }
                }
            }
        }
        // the ends of threads and the freeing of what they had may take an instant more
        let t = Instant::now();
        loop {
            let th = threads(&self.skip).len() as i64 - self.base as i64;
            let live = LIVE.load(Ordering::SeqCst);
            if (th == 0 && live == 0) || t.elapsed() > Duration::from_secs(3) {
                ev(json!({"e":"end","threads":th,"live":live}));
                LIVE.store(0, Ordering::SeqCst);
                self.base = (self.base as i64 + th) as usize;
                break;
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }

    fn op(&mut self, op: &Value) {
        beat();
        match op[0].as_str().unwrap() {
            // ["submit", id, ip, gated]
            "submit" => {
                if self.dropped {
                    return;
                }
                let id = u(&op[1]);
                let gate = Arc::new(Gate::default());
                if !op[3].as_bool().unwrap() {
                    gate.open();
                }
                self.gates.insert(id, gate.clone());
                ev(json!({"e":"submit","id":id,"ip":s(&op[2]),"th":0}));
                let mut f = submit(self.mgr.as_ref().unwrap(), op[2].as_str().unwrap(), Job::new(id, gate));
                match poll(&mut f) {
                    Some(r) => ev(json!({"e":"ret","id":id,"res":res(&r)})),
                    None => {
                        self.calls.insert(id, f);
                    }
                }
            }
            "ret" => self.rets(),
            "abandon" => {
                if self.calls.remove(&u(&op[1])).is_some() {
                    ev(json!({"e":"abandon","id":op[1]}));
                }
            }
            // ["go", thread, [[id, ip, gated]..]]: one after the other, from another thread
            "go" => {
                if self.dropped {
                    return;
                }
                let th = u(&op[1]);
                let mut jobs = Vec::new();
                for j in op[2].as_array().unwrap() {
                    let id = u(&j[0]);
                    let gate = Arc::new(Gate::default());
                    if !j[2].as_bool().unwrap() {
                        gate.open();
                    }
                    self.gates.insert(id, gate.clone());
                    jobs.push((id, s(&j[1]), Job::new(id, gate)));
                }
                let m = self.mgr.as_ref().unwrap().clone();
                self.helpers.push(std::thread::spawn(move || {
                    for (id, ip, job) in jobs {
                        ev(json!({"e":"submit","id":id,"ip":ip,"th":th}));
                        let r = block_on(m.add(ip, job));
                        ev(json!({"e":"ret","id":id,"res":res(&r)}));
                    }
                }));
            }
            // ["release", k]: the k-th of the running jobs
            "release" => self.release(u(&op[1])),
            // ["open", id]
            "open" => {
                if let Some(g) = self.gates.get(&u(&op[1])) {
                    g.open()
                }
            }
            "settle" => {
                if !self.ended {
                    self.settle()
                }
            }
            "pause" => std::thread::sleep(Duration::from_micros(u(&op[1]))),
            "drop" => self.start_drop(),
            // ["bulk", threads, jobs per thread, ips, spin, abandon %, seed]
            "bulk" => self.bulk(op),
            x => panic!("unknown op {x}"),
        }
    }

    fn bulk(&mut self, op: &Value) {
        let (nt, nj, ips, spin, ab, seed) = (u(&op[1]), u(&op[2]), u(&op[3]), u(&op[4]), u(&op[5]), u(&op[6]));
        let total = (nt * nj) as usize;
        let runs: Arc<Vec<AtomicU32>> = Arc::new((0..total).map(|_| AtomicU32::new(0)).collect());
        // 0 unknown, 1 ok, 2 full, 3 error
        let outs: Arc<Vec<AtomicU32>> = Arc::new((0..total).map(|_| AtomicU32::new(0)).collect());
        let used = Arc::new(Mutex::new(HashSet::new()));
        let mut hs = Vec::new();
        for t in 0..nt {
            let (runs, outs, used, m) = (runs.clone(), outs.clone(), used.clone(), self.mgr.as_ref().unwrap().clone());
            hs.push(std::thread::spawn(move || {
                let mut rng = rand::rngs::StdRng::seed_from_u64(seed * 1000 + t);
                let mut mine = HashSet::new();
                for j in 0..nj {
                    let i = (t * nj + j) as usize;
                    let ip = format!("ip{}", rng.random_range(0..ips));
                    mine.insert(ip.clone());
                    let job = Counted::new(runs.clone(), i, spin * rng.random_range(0..3));
                    let mut f = submit(&m, &ip, job);
                    let first = poll(&mut f);
                    let r = match first {
                        Some(r) => r,
                        None if rng.random_range(0..100) < ab => continue,
                        None => block_on(f),
                    };
                    let c = match r {
                        Ok(()) => 1,
                        Err(CaptchaError::QueueFull) => 2,
                        Err(_) => 3,
                    };
                    outs[i].store(c, Ordering::SeqCst);
                    if j % 64 == 0 {
                        beat();
                    }
                }
                used.lock().unwrap().extend(mine);
            }));
        }
        for h in hs {
            h.join().unwrap();
        }
        if !rest(&self.skip, 60) {
            hang();
        }
        let (mut twice, mut norun, mut refrun, mut err, mut ok, mut full) = (0, 0, 0, 0, 0, 0);
        for i in 0..total {
            let (r, o) = (runs[i].load(Ordering::SeqCst), outs[i].load(Ordering::SeqCst));
            twice += (r > 1) as u32;
            norun += (o == 1 && r == 0) as u32;
            refrun += (o == 2 && r > 0) as u32;
            err += (o == 3) as u32;
            ok += (o == 1) as u32;
            full += (o == 2) as u32;
        }
        ev(json!({"e":"bulk","jobs":total,"ips":used.lock().unwrap().len(),"twice":twice,"norun":norun,
                  "refrun":refrun,"err":err,"ok":ok,"full":full}));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let scripts = read_scripts(&a[1]);
    open_log(&a[2]);
    quiet_panics();
    let before: HashSet<String> = threads(&HashSet::new()).into_keys().collect();
    watchdog(100);
    // the threads of the driver itself don't count
    std::thread::sleep(Duration::from_millis(20));
    let mut skip: HashSet<String> = threads(&HashSet::new()).into_keys().collect();
    skip.extend(before);
    skip.insert(self_tid());
    for sc in &scripts {
        ev(json!({"e":"reset","cap":u(&sc["cap"]),"w":u(&sc["w"])}));
        RUNNING.lock().unwrap().clear();
        let base = threads(&skip).len();
        let mut st = Script {
            mgr: Some(Arc::new(Manager::new(u(&sc["w"]) as usize, u(&sc["cap"]) as usize))),
            gates: BTreeMap::new(),
            calls: BTreeMap::new(),
            helpers: Vec::new(),
            dropping: None,
            dropped: false,
            ended: false,
            skip: skip.clone(),
            base,
        };
        for op in sc["ops"].as_array().unwrap() {
            st.op(op);
        }
        st.finish();
    }
    finish();
}
