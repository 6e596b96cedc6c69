// Functions on configurations, one call per line.
use pipeawesome2::config::{load_connection_from_string, Config, DeserializedConnection};
use pipeawesome2::config_io::{parse_config_str, ConfigFormat};
use pipeawesome2::config_manip::{connection_manipulation, connection_manipulation_light};
use serde_json::{json, Value};
use std::io::Write;

fn call(v: &Value) -> Value {
    let s = v["s"].as_str().unwrap_or("");
    match v["op"].as_str().unwrap() {
        "parse" => match load_connection_from_string(s) {
            Ok(c) => json!({"ok": serde_json::to_value(DeserializedConnection::Connections(c)).unwrap()}),
            Err(_) => json!({"bad": true}),
        },
        "manip" | "light" => match parse_config_str(&ConfigFormat::Json, s) {
            Ok(mut c) => {
                if !Config::convert_connections(&mut c.connection).is_empty() {
                    return json!({"bad": true});
                }
                let c = if v["op"] == "manip" { connection_manipulation(c) } else { connection_manipulation_light(c) };
                json!({"ok": serde_json::to_value(c).unwrap()})
            }
            Err(e) => json!({"bad": true, "why": e}),
        },
        _ => json!({"bad": true}),
    }
}

pub fn main(input: &str, output: &str) {
    let text = std::fs::read_to_string(input).unwrap();
    let mut out = std::io::BufWriter::new(std::fs::File::create(output).unwrap());
    for l in text.lines() {
        let v: Value = serde_json::from_str(l).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(&v)));
        let mut r = r.unwrap_or_else(|_| json!({"panic": true}));
        r["sid"] = v["sid"].clone();
        writeln!(out, "{}", r).unwrap();
    }
    out.flush().unwrap();
}
