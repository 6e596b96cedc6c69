// A whole network, wired as pa2 does it, with a spy attached and programs and
// sources under control.  Polled by hand; every write the spy reports is an
// event, and so is everything done from outside.
use crate::child::Remote;
use crate::common::*;
use async_std::channel::{unbounded, Receiver};
use pipeawesome2::config::Config;
use pipeawesome2::config_io::{parse_config_str, ConfigFormat};
use pipeawesome2::config_manip::connection_manipulation;
use pipeawesome2::motion::{IODataWrapper, SpyMessage};
use pipeawesome2::waiter::{get_waiter, WaiterError};
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::io::{Read, Write};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::os::unix::net::UnixListener;
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Source {
    w: Option<std::fs::File>,
    r: i32,
    todo: VecDeque<u8>,
    end: bool,
}

struct Net {
    run: Run<Result<usize, Vec<WaiterError>>>,
    spy: Receiver<SpyMessage>,
    labels: HashMap<usize, String>,
    pad: usize,
    evs: Vec<Value>,
    sources: HashMap<String, Source>,
    programs: HashMap<String, Remote>,
    /// written to a program and not taken by it
    waiting: HashMap<String, i64>,
    /// ends pass through components without being seen: junctions one after the other
    ends: bool,
    depth: f64,
    t0: Instant,
}

pub fn padded(m: i64, pad: usize) -> Vec<u8> {
    let mut b = format!("{}:", m).into_bytes();
    while b.len() + 1 < pad {
        b.push(b'.');
    }
    b.push(b'\n');
    b
}

fn name(b: &[u8], pad: usize) -> i64 {
    if b == b"_" {
        return 100999;
    }
    let s = String::from_utf8_lossy(b).to_string();
    if let Ok(n) = s.parse::<i64>() {
        return if format!("{}", n) == s { 100000 + n } else { -1 };
    }
    match s.split(':').next().and_then(|x| x.parse::<i64>().ok()) {
        Some(m) if padded(m, pad) == b => m,
        _ => -1,
    }
}

impl Net {
    fn ev(&mut self, a: &str, c: &str, m: i64) {
        self.evs.push(json!({"a": a, "c": c, "m": m, "t": self.t0.elapsed().as_millis() as u64}));
    }

    /// Run what can run; true if something was seen.
    fn poll(&mut self) -> bool {
        let mut any = false;
        for s in self.sources.values_mut() {
            while let (Some(w), false) = (&s.w, s.todo.is_empty()) {
                let (a, _) = s.todo.as_slices();
                let n = unsafe { libc::write(w.as_raw_fd(), a.as_ptr() as *const libc::c_void, a.len().min(4096)) };
                if n <= 0 {
                    break;
                }
                s.todo.drain(..n as usize);
                any = true;
            }
            if s.end && s.todo.is_empty() && s.w.is_some() {
                s.w = None;
                any = true;
            }
        }
        self.run.poll();
        while let Ok(SpyMessage { src, dst, src_port, msg }) = self.spy.try_recv() {
            let m = match msg {
                IODataWrapper::IOData(d) => name(&d.0, self.pad),
                _ => continue,
            };
            any = true;
            let l = |i: &usize| self.labels.get(i).cloned().unwrap_or_else(|| "?".to_string());
            let t = self.t0.elapsed().as_millis() as u64;
            let d = l(&dst);
            self.evs.push(json!({"a": "w", "src": l(&src), "port": format!("{:?}", src_port).to_lowercase(), "dst": d, "m": m, "t": t}));
            *self.waiting.entry(d).or_insert(0) += 1;
        }
        any
    }

    /// How long nothing may happen until nothing more is expected to happen: junctions and monitors
    /// sleep for 0, 1, 4, 9, ... ms (up to 2.6 s) while nothing happens.
    fn quiet_after(&self) -> Duration {
        let t = self.t0.elapsed().as_millis() as f64;
        let k = if self.ends { self.depth.min(4.0) } else { 0.0 };
        Duration::from_micros(((60.0 + (1.3 + k) * (3.0 * t).powf(2.0 / 3.0).min(2700.0)) * 1000.0 * patience()) as u64)
    }

    fn settle(&mut self, most: Duration) -> bool {
        let start = Instant::now();
        let mut last = Instant::now();
        loop {
            if self.poll() {
                last = Instant::now();
            }
            if self.run.status != "run" {
                return true;
            }
            let q = self.quiet_after();
            if last.elapsed() > q {
                self.ends = false;
                return true;
            }
            if start.elapsed() > most {
                return false;
            }
            let blocked = self.sources.values().any(|s| !s.todo.is_empty());
            self.run.flag.wait((q - last.elapsed().min(q)).min(Duration::from_millis(if blocked { 5 } else { 500 })) + Duration::from_micros(200));
        }
    }

    fn cmd(&mut self, n: &str, s: &str) -> String {
        if !self.programs.contains_key(n) {
            return "gone".to_string();
        }
        if !self.programs.get_mut(n).unwrap().ask(s) {
            return "gone".to_string();
        }
        let start = Instant::now();
        loop {
            self.poll();
            match self.programs.get_mut(n).unwrap().answer() {
                Some(r) => return r,
                None => {}
            }
            if start.elapsed() > Duration::from_secs(20) {
                return "late".to_string();
            }
            self.run.flag.wait(Duration::from_micros(300));
        }
    }
}

/// The most junctions and regulators one after the other.
fn depth(wired: &Value) -> f64 {
    let mut next: HashMap<String, Vec<String>> = HashMap::new();
    let id = |c: &Value| format!("{}:{}", c["component_type"].as_str().unwrap_or(""), c["component_name"].as_str().unwrap_or(""));
    for ch in wired["connection"].as_object().map(|o| o.values().collect::<Vec<_>>()).unwrap_or_default() {
        let ids: Vec<String> = ch.as_array().map(|a| a.iter().map(|c| id(c)).collect()).unwrap_or_default();
        for w in ids.windows(2) {
            next.entry(w[0].clone()).or_default().push(w[1].clone());
        }
    }
    fn go(c: &str, next: &HashMap<String, Vec<String>>, on: &mut Vec<String>, memo: &mut HashMap<String, usize>) -> usize {
        if on.iter().any(|x| x == c) {
            return 0;
        }
        if let Some(d) = memo.get(c) {
            return *d;
        }
        on.push(c.to_string());
        let d = next.get(c).map(|v| v.iter().map(|x| go(x, next, on, memo)).max().unwrap_or(0)).unwrap_or(0);
        on.pop();
        let d = d + if c.starts_with("junction") || c.starts_with("regulator") { 1 } else { 0 };
        memo.insert(c.to_string(), d);
        d
    }
    let mut memo = HashMap::new();
    next.keys().map(|c| go(c, &next, &mut vec![], &mut memo)).max().unwrap_or(0) as f64
}

fn build(sc: &Value, dir: &std::path::Path) -> Result<(Net, Value, UnixListener, HashMap<String, std::path::PathBuf>), String> {
    let mut cfg = sc["config"].clone();
    let sid = sc["sid"].as_i64().unwrap();
    let sock = dir.join(format!("n{}", sid));
    let listener = UnixListener::bind(&sock).map_err(|e| e.to_string())?;
    let exe = std::env::current_exe().unwrap().to_str().unwrap().to_string();
    let names = |k: &str| -> Vec<String> { sc[k].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
    let mut sources = HashMap::new();
    for n in names("faucets") {
        let mut fds = [0i32; 2];
        if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
            return Err("pipe".into());
        }
        unsafe { libc::fcntl(fds[1], libc::F_SETFL, libc::O_NONBLOCK) };
        cfg["faucet"][&n] = json!({"source": format!("/proc/self/fd/{}", fds[0])});
        sources.insert(n, Source { w: Some(unsafe { std::fs::File::from_raw_fd(fds[1]) }), r: fds[0], todo: VecDeque::new(), end: false });
    }
    for n in names("launches") {
        cfg["launch"][&n] = json!({"cmd": exe, "arg": ["child", sock.to_str().unwrap(), n], "env": {}, "path": null});
    }
    let mut files = HashMap::new();
    for n in names("drains") {
        let p = dir.join(format!("n{}.{}", sid, n));
        cfg["drain"][&n] = json!({"destination": p.to_str().unwrap()});
        files.insert(n, p);
    }
    let mut c = parse_config_str(&ConfigFormat::Json, &cfg.to_string())?;
    let errs = Config::convert_connections(&mut c.connection);
    if !errs.is_empty() {
        return Err(format!("{:?}", errs));
    }
    let c = connection_manipulation(c);
    let wired = serde_json::to_value(&c).map_err(|e| e.to_string())?;
    let w = Box::leak(Box::new(get_waiter(c)?));
    let labels = w.get_id_to_component_type_name().ok_or("no names")?.into_iter().map(|(k, (t, n))| (k, format!("{}:{}", format!("{}", t).to_lowercase(), n))).collect();
    let (tx, rx) = unbounded();
    let run = Run::new(
        Box::pin(async move { w.start(Some(tx)).await }),
        (|r: &Result<usize, Vec<WaiterError>>| match r {
            Ok(_) => (true, "".to_string()),
            Err(v) => (false, v.iter().map(|e| format!("{} {}", e.caused_by_error_name().unwrap_or("?"), e.description())).collect::<Vec<_>>().join("; ")),
        }) as fn(&Result<usize, Vec<WaiterError>>) -> (bool, String),
    );
    Ok((Net { run, spy: rx, labels, pad: sc["pad"].as_u64().unwrap_or(40) as usize, evs: vec![], sources, programs: HashMap::new(), waiting: HashMap::new(), ends: true, depth: depth(&wired), t0: Instant::now() }, wired, listener, files))
}

fn one(sc: &Value, dir: &std::path::Path) -> Value {
    let built = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| build(sc, dir)));
    let (mut n, wired, listener, files) = match built {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return json!({"sid": sc["sid"], "error": e}),
        Err(_) => return json!({"sid": sc["sid"], "error": "panic while building"}),
    };
    let most = Duration::from_secs(60);
    let launches = sc["launches"].as_array().map(|a| a.len()).unwrap_or(0);
    n.poll();
    for _ in 0..launches {
        match Remote::accept(&listener, Duration::from_secs(10)) {
            Some(mut r) => {
                let lines = sc["script"].as_array().unwrap().iter().filter(|op| (op[0] == "out" || op[0] == "err") && op[1] == r.id.as_str()).count();
                let mut size = 4096;
                // a page may not be filled
                while size < 2 * lines * n.pad { size *= 2; }
                if r.cmd(&format!("small {}", size)) != "ok" {
                    return json!({"sid": sc["sid"], "error": "no pipe of that size"});
                }
                n.programs.insert(r.id.clone(), r);
            }
            None => return json!({"sid": sc["sid"], "error": format!("program was not started: {} {}", n.run.status, n.run.detail), "wired": wired}),
        }
        n.poll();
    }
    let script = sc["script"].as_array().unwrap();
    for (k, op) in script.iter().enumerate() {
        let a = op[0].as_str().unwrap();
        let c = op[1].as_str().unwrap_or("").to_string();
        let m = op[2].as_i64().unwrap_or(0);
        match a {
            // waiting takes longer and longer
            "settle" if n.t0.elapsed().as_secs() >= 12 && k + 1 < script.len() => {}
            "settle" => {
                let q = n.settle(most);
                let st = n.run.status;
                n.ev(if q { "quiet" } else { "busy" }, st, 0);
            }
            "step" => { n.poll(); }
            "run" => {
                let s = Instant::now();
                while s.elapsed() < Duration::from_millis(m as u64) {
                    n.poll();
                    n.run.flag.wait(Duration::from_millis(2));
                }
            }
            "give" => {
                let pad = n.pad;
                if let Some(s) = n.sources.get_mut(&c) {
                    s.todo.extend(padded(m, pad));
                }
                n.ev("give", &format!("faucet:{}", c), m);
            }
            "end" => {
                if let Some(s) = n.sources.get_mut(&c) {
                    s.end = true;
                }
                n.ends = true;
                n.ev("end", &format!("faucet:{}", c), 0);
            }
            "out" | "err" => {
                let l = format!("launch:{}", c);
                // the program may be read before it answers
                n.ev(a, &l, m);
                let s = format!("{}p {} {}", a, m, n.pad);
                let r = n.cmd(&c, &s);
                if r != "ok" {
                    n.ev("failed", &l, m);
                }
            }
            "take" => {
                // one message; if one was written to it, waiting until it comes or nothing happens any more
                let l = format!("launch:{}", c);
                let mut last = Instant::now();
                let mut res = "none".to_string();
                while n.programs.contains_key(&c) {
                    let before = n.evs.len();
                    res = n.cmd(&c, &format!("readp 1 {}", n.pad));
                    if res != "empty" { break; }
                    if n.poll() || n.evs.len() != before { last = Instant::now(); }
                    let none = n.waiting.get(&l).cloned().unwrap_or(0) == 0;
                    if none && last.elapsed() > Duration::from_millis(15) { res = "none".to_string(); break; }
                    if last.elapsed() > n.quiet_after() { n.ends = false; break; }
                    n.run.flag.wait(Duration::from_millis(4));
                }
                match res.as_str() {
                    "none" => {}
                    "empty" => n.ev("empty", &l, 0),
                    "eof" => n.ev("eof", &l, 0),
                    x => {
                        let m = x.parse().unwrap_or(-1);
                        n.ev("take", &l, m);
                        *n.waiting.entry(l).or_insert(0) -= 1;
                    }
                }
            }
            "drain" => {
                // all there is, up to m messages
                let l = format!("launch:{}", c);
                let mut last = Instant::now();
                let mut taken = 0;
                while n.programs.contains_key(&c) && taken < m {
                    let before = n.evs.len();
                    let res = n.cmd(&c, &format!("readp 1 {}", n.pad));
                    match res.as_str() {
                        "empty" => {
                            if n.poll() || n.evs.len() != before { last = Instant::now(); }
                            if last.elapsed() > n.quiet_after() { n.ends = false; n.ev("empty", &l, 0); break; }
                            n.run.flag.wait(Duration::from_millis(4));
                        }
                        "eof" => { n.ev("eof", &l, 0); break; }
                        x => { let m = x.parse().unwrap_or(-1); n.ev("take", &l, m); *n.waiting.entry(l.clone()).or_insert(0) -= 1; taken += 1; last = Instant::now(); }
                    }
                }
            }
            "closein" | "closeout" | "closeerr" => {
                n.ends = true;
                n.ev(a, &format!("launch:{}", c), 0);
                n.cmd(&c, a);
            }
            "exit" | "kill" => {
                n.ends = true;
                let code = if a == "kill" { 100999 } else { 100000 + m };
                n.ev("exit", &format!("launch:{}", c), code);
                let s = format!("{} {}", a, m);
                n.cmd(&c, &s);
                n.programs.remove(&c);
            }
            _ => {}
        }
    }
    let mut got = json!({});
    if n.run.status != "run" {
        for (d, p) in &files {
            let mut b = vec![];
            if let Ok(mut f) = std::fs::File::open(p) { let _ = f.read_to_end(&mut b); }
            let mut v: Vec<i64> = vec![];
            // exit codes have two digits and no end of line, messages four and one
            let mut rest: &[u8] = &b;
            while !rest.is_empty() {
                let line = rest.len() >= 5 && rest[..4].iter().all(|x| x.is_ascii_digit()) && rest[4] == b':';
                let k = if line { rest.iter().position(|x| *x == 10).map(|x| x + 1).unwrap_or(rest.len()) }
                    else if rest[0] == b'_' { 1 } else { rest.len().min(2) };
                v.push(name(&rest[..k], n.pad));
                rest = &rest[k..];
            }
            got[d] = json!(v);
        }
    }
    let r = json!({"sid": sc["sid"], "wired": wired, "ev": n.evs, "fut": n.run.status, "detail": n.run.detail, "got": got, "ms": n.t0.elapsed().as_millis() as u64});
    // let everything go
    let names: Vec<String> = n.programs.keys().cloned().collect();
    for p in names {
        if let Some(mut c) = n.programs.remove(&p) { let _ = c.ask("exit 0"); }
    }
    for s in n.sources.values_mut() { s.todo.clear(); s.w = None; }
    let s = Instant::now();
    while n.run.status == "run" && s.elapsed() < Duration::from_millis(400) {
        n.poll();
        n.run.flag.wait(Duration::from_millis(10));
    }
    for s in n.sources.values() { unsafe { libc::close(s.r); } }
    r
}

pub fn main(input: &str, output: &str, threads: usize) {
    let dir = scratch();
    let text = std::fs::read_to_string(input).unwrap();
    let out = Mutex::new(std::fs::File::create(output).unwrap());
    let todo: Mutex<VecDeque<String>> = Mutex::new(text.lines().map(|l| l.to_string()).collect());
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let l = match todo.lock().unwrap().pop_front() { Some(l) => l, None => break };
                let v: Value = serde_json::from_str(&l).unwrap();
                let r = one(&v, &dir);
                let mut o = out.lock().unwrap();
                let _ = writeln!(o, "{}", r);
            });
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
}
