//! Shared parts of the replay drivers: the event log, the virtual-time runtime,
//! the watchdog and the proof-of-work oracle.
pub mod fakeredis;

use std::cell::Cell;
use std::future::Future;
use std::io::Write;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Duration;

pub use serde_json::{json, Value};

static LOG: Mutex<Option<std::io::BufWriter<std::fs::File>>> = Mutex::new(None);
static BEAT: AtomicU64 = AtomicU64::new(0);

/// Opens the event log.
pub fn open_log(path: &str) {
    let f = std::fs::File::create(path).expect("create trace file");
    *LOG.lock().unwrap() = Some(std::io::BufWriter::new(f));
}

/// Appends an event. The order of events in the log is the order of the calls.
pub fn ev(v: Value) {
    BEAT.fetch_add(1, Ordering::Relaxed);
    let mut g = LOG.lock().unwrap();
    let w = g.as_mut().expect("log is open");
    serde_json::to_writer(&mut *w, &v).unwrap();
    w.write_all(b"\n").unwrap();
}

/// Several events at once, nothing comes in between.
pub fn evs(vs: &[Value]) {
    BEAT.fetch_add(1, Ordering::Relaxed);
    let mut g = LOG.lock().unwrap();
    let w = g.as_mut().expect("log is open");
    for v in vs {
        serde_json::to_writer(&mut *w, v).unwrap();
        w.write_all(b"\n").unwrap();
    }
}

pub fn flush_log() {
    if let Ok(mut g) = LOG.lock() {
        if let Some(w) = g.as_mut() {
            let _ = w.flush();
        }
    }
}

pub fn beat() {
    BEAT.fetch_add(1, Ordering::Relaxed);
}

/// If nothing happens for `secs` seconds the trace gets a final `hang` event.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = BEAT.load(Ordering::Relaxed);
        let mut still = 0;
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let now = BEAT.load(Ordering::Relaxed);
            if now == last {
                still += 1;
                if still >= secs * 4 {
                    ev(json!({"e": "hang"}));
                    flush_log();
                    std::process::exit(0);
                }
            } else {
                still = 0;
                last = now;
            }
        }
    });
}

/// Ends the process with the trace on disk, whatever threads are left.
pub fn finish() -> ! {
    flush_log();
    std::process::exit(0);
}

/// Panics of the code under test are data: they show up as what they cause.
pub fn quiet_panics() {
    if std::env::var_os("HARNESS_VERBOSE").is_none() {
        let main = std::thread::current().id();
        std::panic::set_hook(Box::new(move |info| {
            // a panic of the driver itself must stay visible
            let msg = info.to_string();
            if msg.contains("src/bin/") || msg.contains("src/lib.rs") && !msg.contains("/repo/") {
                eprintln!("[{:?} main={}] {msg}", std::thread::current().id(), std::thread::current().id() == main);
            }
        }));
    }
}

pub fn read_scripts(path: &str) -> Vec<Value> {
    std::fs::read_to_string(path)
        .expect("read scripts")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).expect("script line"))
        .collect()
}

// ---------------------------------------------------------------------------
// Virtual time

thread_local! {
    static START: Cell<Option<tokio::time::Instant>> = const { Cell::new(None) };
    static UNIT: Cell<u64> = const { Cell::new(1) };
}

/// Runs `f` on a single-threaded actix system whose clock only moves in [wait].
pub fn run_virtual<F, Fut>(f: F)
where
    F: FnOnce() -> Fut,
    Fut: Future<Output = ()> + 'static,
{
    let sys = actix_rt::System::with_tokio_rt(|| {
        tokio::runtime::Builder::new_current_thread()
            .enable_all()
            .start_paused(true)
            .build()
            .unwrap()
    });
    sys.block_on(async move {
        START.with(|s| s.set(Some(tokio::time::Instant::now())));
        let driver = f();
        let r = actix_rt::spawn(async move {
            driver.await;
        })
        .await;
        if r.is_err() {
            eprintln!("driver panicked");
            flush_log();
            std::process::exit(101);
        }
    });
}

/// Counts the time from now on.
pub fn restart_clock() {
    START.with(|s| s.set(Some(tokio::time::Instant::now())));
}

/// From now on times are counted in units of so many ms (for scripts that last for ages).
pub fn set_unit(ms: u64) {
    UNIT.with(|u| u.set(ms));
}

/// In scripts that last for ages nothing lasts longer than that, ms, and neither does the script.
const LAST: u64 = 9550 * 3600_000;
/// Cleanup rounds that don't come, s.
pub fn never() -> u64 {
    if UNIT.with(|u| u.get()) > 1 {
        18000 * 3600
    } else {
        1_000_000_000
    }
}

/// So many seconds in units, `max` at most.
pub fn units(secs: u64, max: u64) -> u64 {
    (secs as u128 * 1000 / UNIT.with(|u| u.get()) as u128).min(max as u128) as u64
}

/// Virtual time since the start, in units: milliseconds, if nothing else was said.
pub fn now() -> u64 {
    START.with(|s| s.get().unwrap()).elapsed().as_millis() as u64 / UNIT.with(|u| u.get())
}

/// Lets the clock run for so many units, stopping at every timer on the way.
/// Nothing else may be waiting for another thread meanwhile.
/// Where times are ages, time is over at last: tokio's timers end after two years, untidily.
pub async fn wait(ms: u64) {
    beat();
    let total = START.with(|s| s.get().unwrap()).elapsed().as_millis() as u64;
    if UNIT.with(|u| u.get()) > 1 && total + ms * UNIT.with(|u| u.get()) > LAST {
        return;
    }
    if ms > 0 {
        let t = now();
        tokio::time::sleep(Duration::from_millis(ms * UNIT.with(|u| u.get()))).await;
        if now() > t + ms && std::env::var_os("JUMPS").is_none() {
            // a wake-up by another thread was under way after all: the run is void
            eprintln!("clock jumped from {t} to {} in a wait of {ms}", now());
            std::process::exit(75);
        }
    }
    beat();
}

/// The clock stands still until this is dropped. (A paused clock doesn't advance by itself
/// while blocking work is under way. Keeping the scheduler busy isn't enough: a wake-up
/// from another thread can be under way just when it runs out of other things to do.)
pub struct Spinner(#[allow(dead_code)] std::sync::mpsc::Sender<()>);
impl Default for Spinner {
    fn default() -> Self {
        Self::new()
    }
}
impl Spinner {
    pub fn new() -> Self {
        let (tx, rx) = std::sync::mpsc::channel();
        tokio::task::spawn_blocking(move || {
            let _ = rx.recv();
        });
        Spinner(tx)
    }
}

/// One trip to the back of the ready queue.
pub fn fine_yield() -> impl Future<Output = ()> {
    let mut done = false;
    std::future::poll_fn(move |cx| {
        if done {
            std::task::Poll::Ready(())
        } else {
            done = true;
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        }
    })
}

/// Lets everything that can run now run.
pub async fn settle() {
    for _ in 0..40 {
        fine_yield().await;
    }
    for _ in 0..6 {
        tokio::task::yield_now().await;
    }
}

/// Polls a future once, without asking to be woken. (A wake-up that another thread has begun
/// but not finished keeps those of our own timers from getting through, and the paused clock
/// runs on.)
pub async fn poll_quietly<T>(f: &mut Pin<Box<dyn Future<Output = T>>>) -> Option<T> {
    std::future::poll_fn(|_| {
        let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
        std::task::Poll::Ready(match f.as_mut().poll(&mut cx) {
            std::task::Poll::Ready(v) => Some(v),
            std::task::Poll::Pending => None,
        })
    })
    .await
}

/// Polls a future to its end, without asking to be woken; the clock must be held.
pub async fn drive<T>(mut f: Pin<Box<dyn Future<Output = T>>>) -> T {
    loop {
        if let Some(v) = poll_quietly(&mut f).await {
            return v;
        }
        fine_yield().await;
    }
}

/// Polls a future once.
pub async fn poll_once<T>(f: &mut Pin<Box<dyn Future<Output = T>>>) -> Option<T> {
    std::future::poll_fn(|cx| {
        std::task::Poll::Ready(match f.as_mut().poll(cx) {
            std::task::Poll::Ready(v) => Some(v),
            std::task::Poll::Pending => None,
        })
    })
    .await
}

// ---------------------------------------------------------------------------
// Proof of work oracle: what the client is told to compute

use mcaptcha_pow_sha256::{Config, ConfigBuilder, PoW, PoWBuilder};

pub fn pow_config(salt: &str) -> Config {
    ConfigBuilder::default().salt(salt.to_string()).build().unwrap()
}

pub fn threshold(d: u32) -> u128 {
    u128::MAX - u128::MAX / d as u128
}

pub fn score(cfg: &Config, string: &str, nonce: u64) -> u128 {
    let p: PoW<String> = PoWBuilder::default()
        .result(String::new())
        .nonce(nonce)
        .build()
        .unwrap();
    cfg.calculate(&p, &string.to_string()).unwrap()
}

/// An honest client: the first nonce from `from` on that reaches `min` but not `below`.
pub fn search(cfg: &Config, string: &str, from: u64, min: u128, below: Option<u128>, max: u64) -> Option<(u64, u128)> {
    for n in (0..max).map(|k| from.wrapping_add(k)) {
        if n & 0xffff == 0 {
            beat();
        }
        let s = score(cfg, string, n);
        if s >= min && below.map(|b| s < b).unwrap_or(true) {
            return Some((n, s));
        }
    }
    None
}

pub fn is_valid(cfg: &Config, string: &str, nonce: u64, result: &str) -> bool {
    score(cfg, string, nonce).to_string() == result
}

pub fn is_sufficient(d: u32, result: &str) -> bool {
    match result.parse::<u128>() {
        Ok(r) => r >= threshold(d),
        Err(_) => false,
    }
}

// ---------------------------------------------------------------------------
// Configurations

use libmcaptcha::{Defense, DefenseBuilder, LevelBuilder, MCaptcha, MCaptchaBuilder};

pub fn defense(levels: &[(u32, u32)]) -> Defense {
    let mut b = DefenseBuilder::default();
    for (t, d) in levels {
        b.add_level(
            LevelBuilder::default()
                .visitor_threshold(*t)
                .difficulty_factor(*d)
                .unwrap()
                .build()
                .unwrap(),
        )
        .unwrap();
    }
    b.build().unwrap()
}

pub fn mcaptcha(levels: &[(u32, u32)], dur: u64) -> MCaptcha {
    MCaptchaBuilder::default()
        .defense(defense(levels))
        .duration(dur)
        .build()
        .unwrap()
}

pub fn levels_of(v: &Value) -> Vec<(u32, u32)> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|p| (p[0].as_u64().unwrap() as u32, p[1].as_u64().unwrap() as u32))
        .collect()
}

pub fn s(v: &Value) -> String {
    v.as_str().unwrap_or_else(|| panic!("string expected, got {v}")).to_string()
}
pub fn u(v: &Value) -> u64 {
    v.as_u64().unwrap_or_else(|| panic!("number expected, got {v}"))
}

/// Lets everything that can run run, I/O included, the clock standing still;
/// `count` tells how much has happened.
pub async fn quiesce(count: impl Fn() -> u64) {
    loop {
        let c = count();
        for _ in 0..400 {
            fine_yield().await;
        }
        if count() == c {
            return;
        }
    }
}
