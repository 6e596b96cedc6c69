// A program which does a list of simple things, for whole configurations.
use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;

static END: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);

// Nobody reads any more: the steps after "fin" are all which is left to do
fn out(fd: i32, b: &[u8]) {
    let mut i = 0;
    while i < b.len() {
        let n = unsafe { libc::write(fd, b[i..].as_ptr() as *const libc::c_void, b.len() - i) };
        if n < 0 {
            let rest = std::mem::take(&mut *END.lock().unwrap());
            steps(&rest);
            std::process::exit(0);
        }
        i += n as usize;
    }
}

// whole lines, so that what was written is whole when the next write fails
fn copy(fds: &[i32]) {
    let mut b = [0u8; 4096];
    let mut v: Vec<u8> = vec![];
    loop {
        let n = unsafe { libc::read(0, b.as_mut_ptr() as *mut libc::c_void, b.len()) };
        let end = n <= 0;
        if !end {
            v.extend_from_slice(&b[..n as usize]);
        }
        while let Some(p) = v.iter().position(|x| *x == 10) {
            let l: Vec<u8> = v.drain(..=p).collect();
            for fd in fds {
                out(*fd, &l);
            }
        }
        if end {
            for fd in fds {
                out(*fd, &v);
            }
            return;
        }
    }
}

fn append(file: &str, text: &[u8]) {
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(file).unwrap();
    f.write_all(text).unwrap();
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn main(all: &[String]) {
    crate::common::ordinary_signals();
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN) };
    if let Some(p) = all.iter().position(|s| s == "fin") {
        *END.lock().unwrap() = all[p + 1..].to_vec();
    }
    steps(all);
}

fn steps(all: &[String]) {
    for s in all {
        let mut it = s.splitn(3, ':');
        let op = it.next().unwrap();
        let a = it.next().unwrap_or("");
        let b = it.next().unwrap_or("");
        let text = || if b.is_empty() { format!("{}\n", a) } else { format!("{}:{}\n", a, b) };
        match op {
            "out" => out(1, text().as_bytes()),
            "err" => out(2, text().as_bytes()),
            // a file, as it is
            "file" => out(1, &std::fs::read(a).unwrap()),
            "fileerr" => out(2, &std::fs::read(a).unwrap()),
            "bare" => out(1, a.as_bytes()),
            "cat" => copy(&[1]),
            "caterr" => copy(&[2]),
            "tee" => copy(&[1, 2]),
            "sink" => copy(&[]),
            "slurp" => {
                let mut v = vec![];
                std::io::stdin().read_to_end(&mut v).unwrap();
                out(1, &v);
            }
            "head" => {
                for _ in 0..a.parse::<usize>().unwrap() {
                    let mut l = vec![];
                    let mut c = [0u8; 1];
                    while unsafe { libc::read(0, c.as_mut_ptr() as *mut libc::c_void, 1) } == 1 {
                        l.push(c[0]);
                        if c[0] == 10 {
                            break;
                        }
                    }
                    out(1, &l);
                }
            }
            // read some lines and keep them
            "skip" => {
                let mut c = [0u8; 1];
                let mut n = a.parse::<usize>().unwrap();
                while n > 0 && unsafe { libc::read(0, c.as_mut_ptr() as *mut libc::c_void, 1) } == 1 {
                    if c[0] == 10 {
                        n -= 1;
                    }
                }
            }
            "flood" | "ferr" => {
                let fd = if op == "flood" { 1 } else { 2 };
                for i in 0..a.parse::<usize>().unwrap() {
                    out(fd, format!("{}{}\n", b, i).as_bytes());
                }
            }
            // read back what "flood" wrote, and say on stderr how much of it was right
            "expect" => {
                use std::io::BufRead;
                let n = a.parse::<usize>().unwrap();
                let mut r = std::io::BufReader::new(std::io::stdin());
                let mut l = String::new();
                let mut right = 0;
                for i in 0..n {
                    l.clear();
                    if r.read_line(&mut l).unwrap_or(0) == 0 || l != format!("{}{}\n", b, i) {
                        break;
                    }
                    right += 1;
                }
                out(2, format!("{}\n", right).as_bytes());
            }
            // numbered lines without end
            "count" => {
                let mut i = 0;
                loop {
                    out(1, format!("{}:{:04};\n", a, i).as_bytes());
                    i += 1;
                }
            }
            // a program in a loop: a line "N:x" goes back (B times) as "N-1:x" and leaves on stderr at 0
            "loop" => {
                let mut v: Vec<u8> = vec![];
                let mut c = [0u8; 4096];
                let mut left = a.parse::<i64>().unwrap_or(-1);
                loop {
                    let n = unsafe { libc::read(0, c.as_mut_ptr() as *mut libc::c_void, c.len()) };
                    if n <= 0 {
                        break;
                    }
                    v.extend_from_slice(&c[..n as usize]);
                    while let Some(p) = v.iter().position(|x| *x == 10) {
                        let l: Vec<u8> = v.drain(..=p).collect();
                        let t = String::from_utf8_lossy(&l).trim_end().to_string();
                        let (k, x) = t.split_once(':').unwrap_or(("0", ""));
                        let k: i64 = k.parse().unwrap_or(0);
                        if k > 0 {
                            for _ in 0..b.parse::<usize>().unwrap_or(1) { out(1, format!("{}:{}\n", k - 1, x).as_bytes()); }
                        } else {
                            out(2, format!("{}\n", x).as_bytes());
                            left -= 1;
                            if left == 0 {
                                std::process::exit(0);
                            }
                        }
                    }
                }
            }
            "closein" => { unsafe { libc::close(0) }; }
            "closeout" => { unsafe { libc::close(1) }; }
            "closeerr" => { unsafe { libc::close(2) }; }
            "sleep" => std::thread::sleep(std::time::Duration::from_millis(a.parse().unwrap())),
            "mark" => append(a, format!("{}\n", b).as_bytes()),
            // what stdin holds, as it is
            "save" => {
                let mut v = vec![];
                std::io::stdin().read_to_end(&mut v).unwrap();
                append(a, &v);
            }
            "dump" => {
                use std::os::unix::ffi::OsStringExt;
                let args: Vec<String> = std::env::args_os().map(|x| hex(&x.into_vec())).collect();
                let env: Vec<(String, String)> = std::env::vars_os().map(|(k, v)| (hex(k.as_bytes()), hex(v.as_bytes()))).collect();
                let cwd = std::env::current_dir().unwrap();
                let v = serde_json::json!({"args": args, "env": env, "cwd": cwd.to_str()});
                append(a, format!("{}\n", v).as_bytes());
            }
            "wait" => {
                while !std::path::Path::new(a).exists() {
                    std::thread::sleep(std::time::Duration::from_millis(2));
                }
            }
            "exit" => std::process::exit(a.parse().unwrap()),
            "kill" => {
                let n = a.parse().unwrap();
                unsafe { libc::signal(n, libc::SIG_DFL) };
                unsafe { libc::kill(libc::getpid(), n) };
                std::thread::sleep(std::time::Duration::from_secs(5));
            }
            _ => {}
        }
    }
}
