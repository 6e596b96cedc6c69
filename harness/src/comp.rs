// One component, driven by a script, one poll at a time.  Each event is
// recorded with what can be observed from outside afterwards.
use crate::child::Remote;
use crate::common::*;
use async_std::channel::{bounded, unbounded, Receiver, Sender, TryRecvError, TrySendError};
use pipeawesome2::buffer::{Buffer, BufferSizeMessage};
use pipeawesome2::connectable::{Breakable, Connectable, OutputPort};
use pipeawesome2::drain::Drain;
use pipeawesome2::faucet::Faucet;
use pipeawesome2::junction::Junction;
use pipeawesome2::launch::Launch;
use pipeawesome2::motion::{IOData, IODataWrapper, MotionResult, Pull, PullJourney, SpyMessage};
use pipeawesome2::regulator::{Regulator, RegulatorControl};
use pipeawesome2::startable_control::StartableControl;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::os::unix::net::UnixListener;
use std::task::Poll;
use std::time::{Duration, Instant};

pub fn pol(s: &str) -> Breakable {
    match s {
        "F" => Breakable::Finish,
        "C" => Breakable::Consume,
        _ => Breakable::Terminate,
    }
}

enum End {
    Tx(Sender<IOData>),          // environment sends
    Rx(Option<Receiver<IOData>>), // environment receives
    PipeIn(Option<std::fs::File>),
    Path(std::path::PathBuf),
    ChildIn,
    ChildOut,
    ChildErr,
    ChildExit,
    Hidden,
}

struct World {
    edges: Vec<Value>,
    ends: Vec<End>,
    comps: Vec<Value>,
    spy_tx: Option<Sender<SpyMessage>>,
    spy: Option<Receiver<SpyMessage>>,
    spied: Vec<Value>,
    sizes: Option<Receiver<BufferSizeMessage>>,
    last_size: i64,
    size_n: usize,
    sizeof: usize,
    ctl: Option<&'static mut RegulatorControl>,
    names: Names,
    lines: bool,
    dst_edge: HashMap<(usize, String), usize>,
    child: Option<Remote>,
    listener: Option<UnixListener>,
}

fn port_name(p: &OutputPort) -> String {
    format!("{:?}", p).to_lowercase()
}

fn input(w: &mut World, v: &Value, comp: usize) -> Pull {
    let cap = v["cap"].as_u64().unwrap_or(2) as usize;
    let (tx, rx) = bounded(cap);
    w.edges.push(json!({"src":0,"dst":comp,"cap":cap,"pol":"T","prio":v["prio"].as_i64().unwrap_or(0)}));
    w.ends.push(End::Tx(tx));
    Pull::Receiver(PullJourney { src: 100 + w.ends.len(), dst: 1 }, rx)
}

fn output(w: &mut World, c: &mut dyn Connectable, port: OutputPort, policy: &str, comp: usize) -> Result<(), String> {
    let dst = 200 + w.ends.len() + 1;
    let pull = c.add_output(port, pol(policy), 1, dst).map_err(|e| format!("add_output: {:?}", e))?;
    match pull {
        Pull::Receiver(_, rx) => {
            let cap = rx.capacity().map(|x| x as i64).unwrap_or(-1);
            w.edges.push(json!({"src":comp,"dst":0,"cap":cap,"pol":policy,"prio":0}));
            w.ends.push(End::Rx(Some(rx)));
            w.dst_edge.insert((dst, port_name(&port)), w.ends.len());
            Ok(())
        }
        _ => Err("add_output gave something which is not a channel".to_string()),
    }
}

fn snapshot(w: &World) -> (Vec<i64>, Vec<i64>, usize, usize) {
    let mut len = vec![];
    let mut open = vec![];
    for e in &w.ends {
        match e {
            End::Tx(tx) => {
                open.push(if tx.is_closed() { 0 } else { 1 });
                // after the receiver went the queue no longer matters
                len.push(if tx.receiver_count() == 0 { -1 } else { tx.len() as i64 });
            }
            End::Rx(Some(rx)) => {
                open.push(if rx.is_closed() { 0 } else { 1 });
                len.push(rx.len() as i64);
            }
            _ => {
                open.push(-1);
                len.push(-1);
            }
        }
    }
    (len, open, w.spy.as_ref().map(|s| s.len()).unwrap_or(0), w.sizes.as_ref().map(|s| s.len()).unwrap_or(0))
}

fn drain_sizes(w: &mut World) -> bool {
    let mut any = false;
    if let Some(s) = &w.sizes {
        while let Ok(BufferSizeMessage(n)) = s.try_recv() {
            w.last_size = n as i64;
            w.size_n += 1;
            any = true;
        }
    }
    any
}

// What the spy has to say.  Whoever listens may be slow: a component which waits
// for the spy goes on when this has been called.
fn drain_spy(w: &mut World) -> bool {
    let mut any = false;
    if let Some(s) = w.spy.take() {
        while let Ok(SpyMessage { src, dst, src_port, msg }) = s.try_recv() {
            any = true;
            // marks which say that some input ended are no messages
            let m = match msg { IODataWrapper::IOData(d) => name_of(w, &d.0), _ => continue };
            let e = *w.dst_edge.get(&(dst, port_name(&src_port))).unwrap_or(&0);
            w.spied.push(json!([if src == 1 { e } else { 0 }, m]));
        }
        w.spy = Some(s);
    }
    any
}

fn settle(w: &mut World, run: &mut Run, kind: &str) -> bool {
    let p = patience();
    let start = Instant::now();
    let mut idle = 0;
    run.poll();
    loop {
        drain_sizes(w);
        drain_spy(w);
        if run.status != "run" {
            return true;
        }
        if start.elapsed() > Duration::from_secs(12) {
            return true;
        }
        let timer = kind == "junction" || kind == "buffer";
        let full = w.ends.iter().any(|e| matches!(e, End::Rx(Some(rx)) if rx.is_full() && !rx.is_closed()));
        let ms = match kind {
            "regulator" => 1.0,
            "junction" if full => 12.0,
            "junction" | "buffer" => 3500.0,
            _ => 25.0,
        };
        let before = snapshot(w);
        let d = if ms > 1000.0 { ms } else { ms * p };
        if !run.flag.wait(Duration::from_micros((d * 1000.0) as u64)) {
            return true;
        }
        run.poll();
        if timer {
            let sized = w.sizes.as_ref().map(|s| s.len()).unwrap_or(0) > 0;
            let after = snapshot(w);
            if before == after && !run.flag.is_set() && !sized {
                idle += 1;
                if idle as f64 >= 2.0 * p.min(3.0) {
                    return true;
                }
            } else {
                idle = 0;
            }
        }
    }
}

fn build(sc: &Value, w: &mut World, dir: &std::path::Path) -> Result<Run, String> {
    let kind = sc["kind"].as_str().unwrap();
    let inputs = sc["inputs"].as_array().cloned().unwrap_or_default();
    let outputs = sc["outputs"].as_array().cloned().unwrap_or_default();
    let spy = w.spy_tx.take();
    let ctl = sc["ctl"].as_bool().unwrap_or(false);
    // Order of wiring: outputs first or inputs first, as in a configuration.
    let out_first = sc["out_first"].as_bool().unwrap_or(false);
    let comp = |k: &str, gate: bool, exitof: usize| json!({"kind":k,"gate":gate,"exitof":exitof,"with":0});
    macro_rules! wire {
        ($c:expr) => {{
            let mut done_out = false;
            if out_first {
                // keep edge numbers: inputs are listed first all the same
                done_out = true;
            }
            let mut pulls = vec![];
            for i in &inputs {
                let pull = input(w, i, 1);
                pulls.push((pull, i["prio"].as_i64().unwrap_or(0) as isize));
            }
            if done_out {
                for o in &outputs {
                    output(w, $c, OutputPort::Out, o["pol"].as_str().unwrap(), 1)?;
                }
            }
            for (pull, prio) in pulls {
                $c.add_input(pull, prio).map_err(|e| format!("add_input: {:?}", e))?;
            }
            if !done_out {
                for o in &outputs {
                    output(w, $c, OutputPort::Out, o["pol"].as_str().unwrap(), 1)?;
                }
            }
        }};
    }
    match kind {
        "junction" => {
            let c: &'static mut Junction = Box::leak(Box::new(Junction::new()));
            if let Some(n) = sc["size"].as_u64() { c.set_stdout_size(n as usize); }
            wire!(c);
            w.comps.push(comp("junction", false, 0));
            Ok(Run::new(c.start(spy), judge_motion))
        }
        "regulator" => {
            let c: &'static mut Regulator = Box::leak(Box::new(Regulator::new()));
            if let Some(n) = sc["size"].as_u64() { c.set_stdout_size(n as usize); }
            if ctl { w.ctl = Some(Box::leak(Box::new(c.get_control()))); }
            wire!(c);
            w.comps.push(comp("relay", ctl, 0));
            Ok(Run::new(c.start(spy), judge_motion))
        }
        "buffer" => {
            let c: &'static mut Buffer = Box::leak(Box::new(Buffer::new()));
            if let Some(n) = sc["size"].as_u64() { c.set_stdout_size(n as usize); }
            if ctl { w.sizes = Some(c.add_buffer_size_monitor()); }
            wire!(c);
            let p = outputs[0]["pol"].clone();
            w.edges[1]["src"] = json!(2);
            w.edges.push(json!({"src":1,"dst":2,"cap":-1,"pol":p,"prio":0}));
            w.ends.push(End::Hidden);
            if ctl { w.sizeof = 3; }
            w.comps.push(json!({"kind":"relay","gate":false,"exitof":0,"with":2}));
            w.comps.push(comp("relay", false, 0));
            Ok(Run::new(c.start(spy), judge_motion))
        }
        "faucet" => {
            w.lines = true;
            w.names = Names::line();
            let mut fds = [0i32; 2];
            if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 { return Err("pipe".into()); }
            use std::os::unix::io::FromRawFd;
            let wr = unsafe { std::fs::File::from_raw_fd(fds[1]) };
            let c: &'static mut Faucet = Box::leak(Box::new(Faucet::new(format!("/proc/self/fd/{}", fds[0]))));
            if let Some(n) = sc["size"].as_u64() { c.set_stdout_size(n as usize); }
            w.edges.push(json!({"src":0,"dst":1,"cap":-1,"pol":"T","prio":0}));
            w.ends.push(End::PipeIn(Some(wr)));
            for o in &outputs { output(w, c, OutputPort::Out, o["pol"].as_str().unwrap(), 1)?; }
            w.comps.push(comp("relay", false, 0));
            Ok(Run::new(c.start(spy), judge_motion))
        }
        "drain" => {
            w.lines = true;
            w.names = Names::line();
            let path = dir.join(format!("drain.{}", sc["sid"]));
            std::fs::write(&path, b"old contents to be replaced, longer than what comes\n").unwrap();
            let c: &'static mut Drain = Box::leak(Box::new(Drain::new(path.to_str().unwrap().to_string())));
            for i in &inputs {
                let p = input(w, i, 1);
                c.add_input(p, i["prio"].as_i64().unwrap_or(0) as isize).map_err(|e| format!("{:?}", e))?;
            }
            w.edges.push(json!({"src":1,"dst":0,"cap":-1,"pol":"T","prio":0}));
            w.ends.push(End::Path(path));
            w.comps.push(comp("relay", false, 0));
            Ok(Run::new(c.start(None), judge_motion))
        }
        "launch" => {
            w.lines = true;
            w.names = Names::line();
            let sock = dir.join(format!("s{}", sc["sid"]));
            w.listener = Some(UnixListener::bind(&sock).map_err(|e| e.to_string())?);
            let exe = std::env::current_exe().unwrap().to_str().unwrap().to_string();
            let c: &'static mut Launch<HashMap<String, String>, String, String, Vec<String>, String, String, String> =
                Box::leak(Box::new(Launch::new(1, None, None, exe, Some(vec!["child".to_string(), sock.to_str().unwrap().to_string(), "x".to_string()]))));
            let has = |p: &str| outputs.iter().find(|o| o["port"] == p).map(|o| o["pol"].as_str().unwrap().to_string());
            let exit = has("exit");
            let xo = if exit.is_some() { 4 } else { 0 };
            for i in &inputs {
                let p = input(w, i, 1);
                c.add_input(p, 0).map_err(|e| format!("{:?}", e))?;
            }
            if let Some(p) = has("out") { output(w, c, OutputPort::Out, &p, 2)?; }
            if let Some(p) = has("err") { output(w, c, OutputPort::Err, &p, 3)?; }
            if let Some(p) = exit.clone() { output(w, c, OutputPort::Exit, &p, 4)?; }
            if !inputs.is_empty() {
                w.edges.push(json!({"src":1,"dst":0,"cap":-1,"pol":"F","prio":0}));
                w.ends.push(End::ChildIn);
            }
            if has("out").is_some() {
                w.edges.push(json!({"src":0,"dst":2,"cap":-1,"pol":"T","prio":0}));
                w.ends.push(End::ChildOut);
            }
            if has("err").is_some() {
                w.edges.push(json!({"src":0,"dst":3,"cap":-1,"pol":"T","prio":0}));
                w.ends.push(End::ChildErr);
            }
            w.comps.push(comp("relay", false, xo));
            w.comps.push(comp("relay", false, xo));
            w.comps.push(comp("relay", false, xo));
            if exit.is_some() {
                w.edges.push(json!({"src":0,"dst":4,"cap":1,"pol":"T","prio":0}));
                w.ends.push(End::ChildExit);
                w.comps.push(comp("exit", false, 0));
            }
            Ok(Run::new(Box::pin(async move { c.start(spy).await }), judge_motion))
        }
        _ => Err(format!("unknown kind {}", kind)),
    }
}

fn name_of(w: &World, b: &[u8]) -> i64 {
    // exit codes travel as text
    let m = w.names.of(b);
    if m >= 0 || w.listener.is_none() {
        return m;
    }
    match std::str::from_utf8(b) {
        Ok("_") => 9999,
        Ok(s) => match s.parse::<i64>() {
            Ok(n) if format!("{}", n) == s => 5000 + n,
            _ => -1,
        },
        _ => -1,
    }
}

pub fn one(sc: &Value, dir: &std::path::Path) -> Value {
    let (spy_tx, spy_rx) = match sc["spycap"].as_u64() { Some(n) if n > 0 => bounded(n as usize), _ => unbounded() };
    let spied = sc["spy"].as_bool().unwrap_or(false);
    let mut w = World {
        edges: vec![], ends: vec![], comps: vec![],
        spy_tx: if spied { Some(spy_tx) } else { None },
        spy: if spied { Some(spy_rx) } else { None }, spied: vec![],
        sizes: None, last_size: 0, size_n: 0, sizeof: 0, ctl: None,
        names: Names::content(), lines: false, dst_edge: HashMap::new(), child: None, listener: None,
    };
    let kind = sc["kind"].as_str().unwrap().to_string();
    let mut evs: Vec<Value> = vec![];
    let built = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| build(sc, &mut w, dir)));
    let mut run = match built {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => return json!({"sid": sc["sid"], "error": e}),
        Err(_) => return json!({"sid": sc["sid"], "error": "panic while building"}),
    };

    let observe = |w: &mut World, run: &Run, a: &str, e: usize, m: i64, ms: Vec<i64>, res: &str, quiet: bool, evs: &mut Vec<Value>| {
        drain_sizes(w);
        let (len, open, _, _) = snapshot(w);
        drain_spy(w);
        let spied = std::mem::take(&mut w.spied);
        evs.push(json!({"a":a,"e":e,"m":m,"ms":ms,"res":res,"quiet":quiet,"len":len,"open":open,
                        "fut":run.status,"spy":spied,"size":w.last_size}));
    };

    if kind == "launch" {
        run.poll();
        w.child = Remote::accept(w.listener.as_ref().unwrap(), Duration::from_secs(10));
        observe(&mut w, &run, "step", 0, 0, vec![], "ok", false, &mut evs);
        if w.child.is_none() {
            return json!({"sid": sc["sid"], "error": format!("program was not started: {} {}", run.status, run.detail)});
        }
    }

    let script = sc["script"].as_array().unwrap().clone();
    let edge_of = |w: &World, k: &str| -> usize {
        w.ends.iter().position(|e| match (k, e) {
            ("in", End::ChildIn) | ("out", End::ChildOut) | ("err", End::ChildErr) | ("exit", End::ChildExit) => true,
            _ => false,
        }).map(|x| x + 1).unwrap_or(0)
    };
    for op in script {
        let a = op[0].as_str().unwrap().to_string();
        let e = op[1].as_u64().unwrap_or(0) as usize;
        let m = op[2].as_i64().unwrap_or(0);
        match a.as_str() {
            "step" => {
                run.poll();
                while drain_spy(&mut w) && run.flag.is_set() { run.poll(); }
                observe(&mut w, &run, "step", 0, 0, vec![], "ok", false, &mut evs);
            }
            "settle" => {
                let qt = settle(&mut w, &mut run, &kind);
                observe(&mut w, &run, "settle", 0, 0, vec![], "ok", qt, &mut evs);
            }
            "send" => {
                let bytes = if w.lines { line(m) } else { content(m) };
                let res = match &mut w.ends[e - 1] {
                    End::Tx(tx) => match tx.try_send(IOData(bytes)) {
                        Ok(()) => "ok",
                        Err(TrySendError::Full(_)) => "full",
                        Err(TrySendError::Closed(_)) => "closed",
                    },
                    End::PipeIn(Some(_)) if run.status != "run" => "skip",
                    End::PipeIn(Some(f)) => if f.write_all(&bytes).is_ok() { "ok" } else { "closed" },
                    _ => "skip",
                };
                if res != "skip" { observe(&mut w, &run, "send", e, m, vec![], res, false, &mut evs); }
            }
            "close" => {
                let did = match &mut w.ends[e - 1] {
                    End::Tx(tx) => { tx.close(); true }
                    End::PipeIn(f) => { let was = f.is_some(); *f = None; was }
                    _ => false,
                };
                if did { observe(&mut w, &run, "close", e, 0, vec![], "ok", false, &mut evs); }
            }
            "recv" => {
                let r = match &w.ends[e - 1] {
                    End::Rx(Some(rx)) => Some(rx.try_recv()),
                    _ => None,
                };
                match r {
                    Some(Ok(d)) => { let m = name_of(&w, &d.0); observe(&mut w, &run, "recv", e, m, vec![], "ok", false, &mut evs) }
                    Some(Err(TryRecvError::Empty)) => observe(&mut w, &run, "recv", e, 0, vec![], "empty", false, &mut evs),
                    Some(Err(TryRecvError::Closed)) => observe(&mut w, &run, "recv", e, 0, vec![], "closed", false, &mut evs),
                    None => {}
                }
            }
            "drop" => {
                let did = match &mut w.ends[e - 1] {
                    End::Rx(r) if r.is_some() => { *r = None; true }
                    _ => false,
                };
                if did { observe(&mut w, &run, "drop", e, 0, vec![], "ok", false, &mut evs); }
            }
            "pause" | "resume" => {
                if let Some(c) = w.ctl.take() {
                    let p: *mut RegulatorControl = c;
                    let flag = Flag::new();
                    let pause = a == "pause";
                    let mut f: Fut<bool> = Box::pin(async move {
                        let c = unsafe { &mut *p };
                        let r = if pause { c.pause().await } else { c.resume().await };
                        r.is_ok()
                    });
                    let r = poll_now(&mut f, &flag);
                    let res = match r { Poll::Ready(true) => "ok", Poll::Ready(false) => "fail", Poll::Pending => "blocked" };
                    drop(f);
                    w.ctl = Some(unsafe { &mut *p });
                    observe(&mut w, &run, &a, 1, 0, vec![], res, false, &mut evs);
                }
            }
            // programs
            "out" | "err" => {
                let e = edge_of(&w, &a);
                let r = w.child.as_mut().unwrap().cmd(&format!("{} {}", a, m));
                if e > 0 {
                    let res = if r == "ok" { "ok" } else if r == "e32" { "closed" } else { "skip" };
                    if res != "skip" { observe(&mut w, &run, "send", e, m, vec![], res, false, &mut evs); }
                }
            }
            "read" => {
                let e = edge_of(&w, "in");
                if e > 0 {
                    let ms = (2.0 * patience()) as i64;
                    let r = w.child.as_mut().unwrap().cmd(&format!("read {}", ms));
                    match r.as_str() {
                        "empty" => observe(&mut w, &run, "recv", e, 0, vec![], "empty", false, &mut evs),
                        "eof" => observe(&mut w, &run, "recv", e, 0, vec![], "closed", false, &mut evs),
                        x => match x.parse::<i64>() {
                            Ok(m) => observe(&mut w, &run, "recv", e, m, vec![], "ok", false, &mut evs),
                            _ => {}
                        },
                    }
                }
            }
            "closein" => {
                let e = edge_of(&w, "in");
                if e > 0 { w.child.as_mut().unwrap().cmd("closein"); observe(&mut w, &run, "drop", e, 0, vec![], "ok", false, &mut evs); }
            }
            "closeout" | "closeerr" => {
                let e = edge_of(&w, &a[5..]);
                w.child.as_mut().unwrap().cmd(&a);
                if e > 0 { observe(&mut w, &run, "close", e, 0, vec![], "ok", false, &mut evs); }
            }
            "exit" | "kill" => {
                let mut c = w.child.take().unwrap();
                c.cmd(&format!("{} {}", a, m));
                c.gone();
                let (i, o, r, x) = (edge_of(&w, "in"), edge_of(&w, "out"), edge_of(&w, "err"), edge_of(&w, "exit"));
                if i > 0 && !evs.iter().any(|v| v["a"] == "drop" && v["e"] == i) { observe(&mut w, &run, "drop", i, 0, vec![], "ok", false, &mut evs); }
                if o > 0 { observe(&mut w, &run, "close", o, 0, vec![], "ok", false, &mut evs); }
                if r > 0 { observe(&mut w, &run, "close", r, 0, vec![], "ok", false, &mut evs); }
                let code = if a == "kill" { 9999 } else { 5000 + m };
                if x > 0 { observe(&mut w, &run, "send", x, code, vec![], "ok", false, &mut evs); }
            }
            // what the file behind a drain holds
            "got" => {
                let p = match &w.ends[e - 1] { End::Path(p) => Some(p.clone()), _ => None };
                if let Some(p) = p {
                    if run.status == "ok" {
                        let mut b = vec![];
                        std::fs::File::open(&p).unwrap().read_to_end(&mut b).unwrap();
                        let ms = w.names.split(&b);
                        observe(&mut w, &run, "got", e, 0, ms, "ok", false, &mut evs);
                    }
                }
            }
            _ => {}
        }
    }
    if let Some(mut c) = w.child.take() {
        // let it go, whatever the script left undone
        let _ = c.cmd("exit 0");
        let s = Instant::now();
        while run.status == "run" && s.elapsed() < Duration::from_millis(300) {
            run.flag.wait(Duration::from_millis(5));
            // receivers of a script which ended early may be full
            for e in w.ends.iter_mut() { if let End::Rx(r) = e { *r = None; } if let End::Tx(t) = e { t.close(); } }
            run.poll();
        }
    }
    json!({"sid": sc["sid"], "net": {"edges": w.edges, "comps": w.comps, "spy": spied, "sizeof": w.sizeof}, "ev": evs,
           "detail": run.detail, "sizes": w.size_n})
}

pub fn main(input: &str, output: &str) {
    let dir = scratch();
    let text = std::fs::read_to_string(input).unwrap();
    let mut out = std::io::BufWriter::new(std::fs::File::create(output).unwrap());
    for l in text.lines() {
        let sc: Value = serde_json::from_str(l).unwrap();
        let r = one(&sc, &dir);
        writeln!(out, "{}", r).unwrap();
    }
    out.flush().unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    let _: Option<MotionResult<()>> = None;
}
