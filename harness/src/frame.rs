// Bytes written in given pieces into what pipeawesome2 reads; the messages which come of it.
use crate::common::scratch;
use async_std::prelude::FutureExt;
use pipeawesome2::connectable::{Breakable, Connectable, OutputPort};
use pipeawesome2::faucet::Faucet;
use pipeawesome2::launch::Launch;
use pipeawesome2::motion::Pull;
use pipeawesome2::startable_control::StartableControl;
use serde_json::{json, Value};
use std::io::Write;
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::time::{Duration, Instant};

/// Write each piece when the one before has been read.
pub fn feed(fd: i32, chunks: &[Vec<u8>]) {
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN) };
    let end = Instant::now() + Duration::from_secs(60);
    for c in chunks {
        let mut i = 0;
        while i < c.len() {
            let n = unsafe { libc::write(fd, c[i..].as_ptr() as *const libc::c_void, c.len() - i) };
            if n < 0 {
                return;
            }
            i += n as usize;
        }
        let mut spins = 0;
        loop {
            let mut left: libc::c_int = 0;
            if unsafe { libc::ioctl(fd, libc::FIONREAD, &mut left) } != 0 || left == 0 || Instant::now() > end {
                break;
            }
            spins += 1;
            if spins < 50 {
                std::thread::yield_now();
            } else {
                std::thread::sleep(Duration::from_micros(50));
            }
        }
    }
}

/// Pieces, or runs of equal bytes which are cut into pieces of one size.
fn chunks_of(v: &Value) -> Vec<Vec<u8>> {
    if let Some(runs) = v.get("runs") {
        let mut all = vec![];
        for r in runs.as_array().unwrap() {
            all.extend(std::iter::repeat(r[0].as_u64().unwrap() as u8).take(r[1].as_u64().unwrap() as usize));
        }
        return all.chunks(v["piece"].as_u64().unwrap() as usize).map(|c| c.to_vec()).collect();
    }
    v.as_array().unwrap().iter().map(|c| c.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()).collect()
}

/// As a program: pah chunks FD FILE
pub fn chunks(fd: &str, file: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    feed(fd.parse().unwrap(), &chunks_of(&v));
}

fn runs_of(b: &[u8]) -> Vec<(u8, usize)> {
    let mut r: Vec<(u8, usize)> = vec![];
    for x in b {
        match r.last_mut() {
            Some(l) if l.0 == *x => l.1 += 1,
            _ => r.push((*x, 1)),
        }
    }
    r
}

async fn messages<F: std::future::Future<Output = Result<usize, String>>>(pull: Pull, run: F, runs: bool) -> Value {
    let rx = match pull {
        Pull::Receiver(_, rx) => rx,
        _ => return json!({"status": "no channel", "msgs": []}),
    };
    let got = std::sync::Mutex::new(vec![]);
    let reader = async {
        while let Ok(d) = rx.recv().await {
            got.lock().unwrap().push(d.0);
        }
        Ok::<usize, String>(0)
    };
    let r = futures::future::join(run, reader).timeout(Duration::from_secs(if runs { 60 } else { 15 })).await;
    let status = match r {
        Err(_) => "hang".to_string(),
        Ok((Ok(_), _)) => "ok".to_string(),
        Ok((Err(e), _)) => format!("error: {}", e),
    };
    let got = got.into_inner().unwrap();
    if runs {
        return json!({"status": status, "msgs": got.iter().map(|m| runs_of(m)).collect::<Vec<_>>()});
    }
    json!({"status": status, "msgs": got})
}

fn one(v: &Value, exe: &str) -> Value {
    let chunks = chunks_of(&v["chunks"]);
    let runs = v["chunks"].get("runs").is_some();
    let via = v["via"].as_str().unwrap();
    let dir = scratch();
    match via {
        "file" | "stdin" => {
            let mut fds = [0; 2];
            unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) };
            let wr = unsafe { std::fs::File::from_raw_fd(fds[1]) };
            let rd = unsafe { std::fs::File::from_raw_fd(fds[0]) };
            let mut f = if via == "stdin" {
                unsafe { libc::dup2(rd.as_raw_fd(), 0) };
                Faucet::new("-".to_string())
            } else {
                Faucet::new(format!("/proc/self/fd/{}", rd.as_raw_fd()))
            };
            let pull = f.add_output(OutputPort::Out, Breakable::Terminate, 0, 1).unwrap();
            let t = std::thread::spawn(move || {
                feed(wr.as_raw_fd(), &chunks);
            });
            let r = async_std::task::block_on(messages(pull, async move { f.start(None).await.map_err(|e| format!("{}", e)) }, runs));
            drop(rd);
            if via == "stdin" {
                let null = std::fs::File::open("/dev/null").unwrap();
                unsafe { libc::dup2(null.as_raw_fd(), 0) };
            }
            let _ = t.join();
            r
        }
        _ => {
            let p = dir.join("chunks");
            std::fs::write(&p, v["chunks"].to_string()).unwrap();
            let fd = if via == "err" { "2" } else { "1" };
            let mut l: Launch<std::collections::HashMap<String, String>, String, String, Vec<String>, String, String, String> = Launch::new(
                0, None, None, exe.to_string(), Some(vec!["chunks".to_string(), fd.to_string(), p.to_str().unwrap().to_string()]));
            let port = if via == "err" { OutputPort::Err } else { OutputPort::Out };
            let pull = l.add_output(port, Breakable::Terminate, 0, 1).unwrap();
            async_std::task::block_on(messages(pull, async move { l.start(None).await.map_err(|e| format!("{}", e)) }, runs))
        }
    }
}

pub fn main(input: &str, output: &str) {
    let exe = std::env::current_exe().unwrap().to_str().unwrap().to_string();
    let text = std::fs::read_to_string(input).unwrap();
    let mut out = std::io::BufWriter::new(std::fs::File::create(output).unwrap());
    for l in text.lines() {
        let v: Value = serde_json::from_str(l).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&v, &exe)));
        let mut r = r.unwrap_or_else(|_| json!({"status": "panic", "msgs": []}));
        r["sid"] = v["sid"].clone();
        writeln!(out, "{}", r).unwrap();
        out.flush().unwrap();
    }
    let _ = std::fs::remove_dir_all(scratch());
}
