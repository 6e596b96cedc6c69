// Polling by hand, message contents, small helpers.
use pipeawesome2::motion::{IOData, MotionResult};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

pub struct Flag {
    woken: Mutex<bool>,
    cv: Condvar,
}

impl futures::task::ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        let mut g = a.woken.lock().unwrap();
        *g = true;
        a.cv.notify_all();
    }
}

impl Flag {
    pub fn new() -> Arc<Flag> {
        Arc::new(Flag { woken: Mutex::new(false), cv: Condvar::new() })
    }
    pub fn is_set(&self) -> bool {
        *self.woken.lock().unwrap()
    }
    pub fn clear(&self) {
        *self.woken.lock().unwrap() = false;
    }
    pub fn wait(&self, d: Duration) -> bool {
        let end = Instant::now() + d;
        let mut g = self.woken.lock().unwrap();
        while !*g {
            let now = Instant::now();
            if now >= end {
                return false;
            }
            g = self.cv.wait_timeout(g, end - now).unwrap().0;
        }
        true
    }
}

pub type Fut<T> = Pin<Box<dyn Future<Output = T>>>;

pub fn poll_now<T>(f: &mut Fut<T>, flag: &Arc<Flag>) -> Poll<T> {
    let w = futures::task::waker(flag.clone());
    let mut cx = Context::from_waker(&w);
    f.as_mut().poll(&mut cx)
}

/// A component's future which is polled only when asked.
pub struct Run<T = MotionResult<usize>> {
    fut: Option<Fut<T>>,
    pub flag: Arc<Flag>,
    pub status: &'static str,
    pub detail: String,
    pub judge: fn(&T) -> (bool, String),
}

pub fn judge_motion(r: &MotionResult<usize>) -> (bool, String) {
    match r {
        Ok(n) => (true, format!("{}", n)),
        Err(e) => (false, format!("{}", e)),
    }
}

impl<T> Run<T> {
    pub fn new(fut: Fut<T>, judge: fn(&T) -> (bool, String)) -> Run<T> {
        let flag = Flag::new();
        *flag.woken.lock().unwrap() = true;
        Run { fut: Some(fut), flag, status: "run", detail: "".to_string(), judge }
    }
    pub fn poll(&mut self) {
        if let Some(f) = self.fut.as_mut() {
            self.flag.clear();
            let flag = self.flag.clone();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| poll_now(f, &flag)));
            match r {
                Ok(Poll::Pending) => {}
                Ok(Poll::Ready(x)) => {
                    let (ok, d) = (self.judge)(&x);
                    self.status = if ok { "ok" } else { "err" };
                    self.detail = d;
                    self.fut = None;
                }
                Err(_) => {
                    self.status = "panic";
                    self.fut = None;
                }
            }
        }
    }
}

pub fn patience() -> f64 {
    std::env::var("PAH_PATIENCE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}

/// The bytes of message m when messages are passed as such.
pub fn content(m: i64) -> Vec<u8> {
    let b = format!("{}", m).into_bytes();
    match m % 8 {
        0 if m == 8 => vec![],
        1 => [b, b"\n".to_vec()].concat(),
        2 => [b, vec![0, 255, 254, 10, 13]].concat(),
        3 => [b"\n".to_vec(), b].concat(),
        4 => [b, vec![b'x'; 300]].concat(),
        5 => [b, b"\r\n".to_vec()].concat(),
        _ => b,
    }
}

/// The bytes of message m when messages are lines.
pub fn line(m: i64) -> Vec<u8> {
    let b = format!("{}", m).into_bytes();
    let r = match m % 8 {
        1 => [b, vec![0, 255, 254, 13]].concat(),
        2 => [b, vec![b'x'; 300]].concat(),
        3 => [b, b"\r".to_vec()].concat(),
        4 => [b"\r".to_vec(), b].concat(),
        _ => b,
    };
    [r, b"\n".to_vec()].concat()
}

pub struct Names(HashMap<Vec<u8>, i64>);
impl Names {
    pub fn content() -> Names {
        Names((0..2000).map(|m| (content(m), m)).collect())
    }
    pub fn line() -> Names {
        Names((0..2000).map(|m| (line(m), m)).collect())
    }
    pub fn of(&self, b: &[u8]) -> i64 {
        *self.0.get(b).unwrap_or(&-1)
    }
    pub fn of_io(&self, d: &IOData) -> i64 {
        self.of(&d.0)
    }
    /// Split bytes into known lines.
    pub fn split(&self, b: &[u8]) -> Vec<i64> {
        let mut v = vec![];
        let mut cur = vec![];
        for x in b {
            cur.push(*x);
            if *x == 10 {
                v.push(self.of(&cur));
                cur.clear();
            }
        }
        if !cur.is_empty() {
            v.push(self.of(&cur));
        }
        v
    }
    /// Split concatenated contents greedily (used for sinks fed with lines only).
    pub fn raw(&self, b: &[u8]) -> i64 {
        self.of(b)
    }
}

pub fn scratch() -> std::path::PathBuf {
    let base = std::env::var("PAH_SCRATCH").unwrap_or_else(|_| "/tmp".to_string());
    let p = std::path::Path::new(&base).join(format!("pah.{}", std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    p
}

/// Signals do what they do by default, whatever whoever started us ignores or blocks.
pub fn ordinary_signals() {
    unsafe {
        for s in 1..32 {
            libc::signal(s, libc::SIG_DFL);
        }
        let mut set: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut set);
        libc::sigprocmask(libc::SIG_SETMASK, &set, std::ptr::null_mut());
    }
}
