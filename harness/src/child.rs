// A program under control: does what it is told over a unix socket.
use crate::common::{line, Names};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::time::{Duration, Instant};

fn wr(fd: i32, b: &[u8]) -> Result<(), i32> {
    let mut i = 0;
    while i < b.len() {
        let n = unsafe { libc::write(fd, b[i..].as_ptr() as *const libc::c_void, b.len() - i) };
        if n < 0 {
            return Err(unsafe { *libc::__errno_location() });
        }
        i += n as usize;
    }
    Ok(())
}

/// The program's side.
pub fn child(path: &str, id: &str) {
    crate::common::ordinary_signals();
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN) };
    let sock = match UnixStream::connect(path) {
        Ok(s) => s,
        Err(_) => std::process::exit(97),
    };
    let mut w = sock.try_clone().unwrap();
    let mut r = BufReader::new(sock);
    let names = Names::line();
    let mut inbuf: Vec<u8> = vec![];
    writeln!(w, "hello {}", id).unwrap();
    loop {
        let mut s = String::new();
        match r.read_line(&mut s) {
            Ok(0) | Err(_) => std::process::exit(98),
            _ => {}
        }
        let a: Vec<&str> = s.split_whitespace().collect();
        let reply = match a[0] {
            "out" => wr(1, &line(a[1].parse().unwrap())).map(|_| "ok".to_string()).unwrap_or_else(|e| format!("e{}", e)),
            "err" => wr(2, &line(a[1].parse().unwrap())).map(|_| "ok".to_string()).unwrap_or_else(|e| format!("e{}", e)),
            "outp" | "errp" => {
                let b = crate::net::padded(a[1].parse().unwrap(), a[2].parse().unwrap());
                wr(if a[0] == "outp" { 1 } else { 2 }, &b).map(|_| "ok".to_string()).unwrap_or_else(|e| format!("e{}", e))
            }
            // little room before us, as much as is needed behind
            "small" => {
                let n: i32 = a[1].parse().unwrap();
                unsafe {
                    libc::fcntl(0, libc::F_SETPIPE_SZ, 4096);
                    let a = libc::fcntl(1, libc::F_SETPIPE_SZ, n);
                    let b = libc::fcntl(2, libc::F_SETPIPE_SZ, n);
                    // a stream which is not connected may be no pipe
                    let no = |r: i32, fd: i32| r < n && libc::fcntl(fd, libc::F_GETPIPE_SZ) > 0;
                    if no(a, 1) || no(b, 2) { "e1".to_string() } else { "ok".to_string() }
                }
            }
            "closein" => { unsafe { libc::close(0) }; "ok".to_string() }
            "closeout" => { unsafe { libc::close(1) }; "ok".to_string() }
            "closeerr" => { unsafe { libc::close(2) }; "ok".to_string() }
            "read" | "readp" => {
                // one line if there is one
                let ms: i32 = a[1].parse().unwrap();
                let mut res = "empty".to_string();
                loop {
                    if let Some(p) = inbuf.iter().position(|x| *x == 10) {
                        let l: Vec<u8> = inbuf.drain(..=p).collect();
                        res = if a[0] == "readp" {
                            let pad: usize = a[2].parse().unwrap();
                            let t = String::from_utf8_lossy(&l).to_string();
                            match t.trim_end().parse::<i64>().ok().or_else(|| t.split(':').next().and_then(|x| x.parse::<i64>().ok())) {
                                Some(m) if crate::net::padded(m, pad) == l => format!("{}", m),
                                _ => "-1".to_string(),
                            }
                        } else { format!("{}", names.of(&l)) };
                        break;
                    }
                    let mut pf = libc::pollfd { fd: 0, events: libc::POLLIN, revents: 0 };
                    let n = unsafe { libc::poll(&mut pf, 1, ms) };
                    if n <= 0 { break; }
                    let mut b = [0u8; 4096];
                    match std::io::stdin().lock().read(&mut b) {
                        Ok(0) => { res = "eof".to_string(); break; }
                        Ok(n) => inbuf.extend_from_slice(&b[..n]),
                        Err(_) => { res = "error".to_string(); break; }
                    }
                }
                res
            }
            "exit" => {
                let _ = writeln!(w, "ok");
                std::process::exit(a[1].parse().unwrap());
            }
            "kill" => {
                let _ = writeln!(w, "ok");
                unsafe { libc::kill(libc::getpid(), a[1].parse().unwrap()) };
                std::thread::sleep(Duration::from_secs(5));
                std::process::exit(99);
            }
            _ => "what".to_string(),
        };
        if writeln!(w, "{}", reply).is_err() {
            std::process::exit(96);
        }
    }
}

/// The harness's side.
pub struct Remote {
    w: UnixStream,
    r: BufReader<UnixStream>,
    pub id: String,
}

impl Remote {
    pub fn accept(l: &UnixListener, d: Duration) -> Option<Remote> {
        l.set_nonblocking(true).unwrap();
        let end = Instant::now() + d;
        loop {
            match l.accept() {
                Ok((s, _)) => {
                    s.set_nonblocking(false).unwrap();
                    s.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
                    let mut r = BufReader::new(s.try_clone().unwrap());
                    let mut h = String::new();
                    r.read_line(&mut h).ok()?;
                    return Some(Remote { w: s, r, id: h.trim().trim_start_matches("hello ").to_string() });
                }
                Err(_) => {
                    if Instant::now() > end {
                        return None;
                    }
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
        }
    }
    pub fn cmd(&mut self, s: &str) -> String {
        if writeln!(self.w, "{}", s).is_err() {
            return "gone".to_string();
        }
        let mut r = String::new();
        match self.r.read_line(&mut r) {
            Ok(0) | Err(_) => "gone".to_string(),
            _ => r.trim().to_string(),
        }
    }
    /// Ask without waiting for the answer.
    pub fn ask(&mut self, s: &str) -> bool {
        writeln!(self.w, "{}", s).is_ok()
    }
    pub fn answer(&mut self) -> Option<String> {
        use std::os::unix::io::AsRawFd;
        let mut pf = libc::pollfd { fd: self.w.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        if self.r.buffer().is_empty() && unsafe { libc::poll(&mut pf, 1, 0) } <= 0 {
            return None;
        }
        let mut r = String::new();
        match self.r.read_line(&mut r) {
            Ok(0) | Err(_) => Some("gone".to_string()),
            _ => Some(r.trim().to_string()),
        }
    }
    /// Wait until the program is gone.
    pub fn gone(&mut self) -> bool {
        let mut r = String::new();
        matches!(self.r.read_line(&mut r), Ok(0))
    }
}
