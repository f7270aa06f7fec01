// Shared executor loop: reads histories (one JSON object {"id","ops":[...]} per line), drives a
// Machine, and writes one trace record per operation. The machine only executes the real code and
// reports what it observed; it judges nothing.
use serde_json::{json, Map, Value};
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Machine {
    /// Execute one operation and return the observations to be added to the record.
    fn step(&mut self, op: &Value) -> Value;
}

pub fn run(make: &dyn Fn() -> Box<dyn Machine>, hist_path: &str, out_path: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let input = std::io::BufReader::new(std::fs::File::open(hist_path).expect("histories"));
    let mut out = BufWriter::new(std::fs::File::create(out_path).expect("trace"));
    for line in input.lines() {
        let line = line.expect("read");
        if line.trim().is_empty() {
            continue;
        }
        let hist: Value = serde_json::from_str(&line).expect("history json");
        let id = hist["id"].clone();
        let mut machine = make();
        for (i, op) in hist["ops"].as_array().expect("ops").iter().enumerate() {
            let mut rec: Map<String, Value> = op.as_object().expect("op").clone();
            rec.insert("h".into(), id.clone());
            rec.insert("i".into(), json!(i));
            // announce before running, so that a hang or an abort can be attributed
            writeln!(std::io::stderr(), "@ {} {}", id, i).ok();
            let res = catch_unwind(AssertUnwindSafe(|| machine.step(op)));
            match res {
                Ok(Value::Object(m)) => {
                    rec.insert("panic".into(), json!(false));
                    for (k, v) in m {
                        rec.insert(k, v);
                    }
                    writeln!(out, "{}", Value::Object(rec)).unwrap();
                }
                Ok(other) => panic!("machine returned {other}"),
                Err(e) => {
                    let msg = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    rec.insert("panic".into(), json!(true));
                    let ascii: String = msg.chars().map(|c| if c.is_ascii_graphic() || c == ' ' { c } else { '?' }).collect();
                    rec.insert("msg".into(), json!(ascii));
                    writeln!(out, "{}", Value::Object(rec)).unwrap();
                    break;
                }
            }
        }
    }
    out.flush().unwrap();
}

pub fn bytes(v: &Value) -> String {
    let b: Vec<u8> = v.as_array().expect("byte array").iter().map(|x| x.as_u64().unwrap() as u8).collect();
    String::from_utf8(b).expect("utf8 input")
}
pub fn jb(s: &str) -> Value {
    Value::Array(s.bytes().map(|b| json!(b)).collect())
}
pub fn u(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or_else(|| panic!("field {k} in {v}")) as usize
}
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("field {k} in {v}"))
}
