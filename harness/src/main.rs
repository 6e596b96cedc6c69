mod child;
mod common;
mod comp;
mod frame;
mod net;
mod prog;
mod pure;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        Some("child") => child::child(&a[2], &a[3]),
        Some("comp") => comp::main(&a[2], &a[3]),
        Some("net") => net::main(&a[2], &a[3], a[4].parse().unwrap()),
        Some("frame") => frame::main(&a[2], &a[3]),
        Some("chunks") => frame::chunks(&a[2], &a[3]),
        Some("prog") => prog::main(&a[2..]),
        Some("pure") => pure::main(&a[2], &a[3]),
        _ => {
            eprintln!("usage: pah child|comp ...");
            std::process::exit(2);
        }
    }
    std::process::exit(0);
}
