// The tokenizer and, where they are built in, its vectorised helpers.
use crate::run::{bytes, Machine};
use ass_core::tokenizer::tokens::TokenPosition;
use ass_core::tokenizer::{AssTokenizer, Token};
use serde_json::{json, Value};

pub struct Tokens;

fn tok(src: &str, t: &Token) -> Value {
    let s = t.span.as_ptr() as usize - src.as_ptr() as usize;
    json!({"ty": format!("{:?}", t.token_type), "s": s, "e": s + t.span.len(), "line": t.line, "col": t.column})
}
fn drain(src: &str, z: &mut AssTokenizer) -> Result<Vec<Value>, String> {
    let mut v = vec![];
    while let Some(t) = z.next_token().map_err(|e| e.to_string())? {
        v.push(tok(src, &t));
    }
    Ok(v)
}

impl Machine for Tokens {
    fn step(&mut self, op: &Value) -> Value {
        match op["op"].as_str().unwrap() {
            "reset" => {
                let t = bytes(&op["t"]);
                let mut z = AssTokenizer::new(&t);
                match drain(&t, &mut z) {
                    Err(e) => json!({"ok": false, "why": e}),
                    Ok(v) => {
                        let at = json!([z.position(), z.line(), z.column()]);
                        z.reset();
                        let again = drain(&t, &mut z).is_ok_and(|w| w == v);
                        z.reset();
                        let all = z.tokenize_all().is_ok();
                        let p = TokenPosition::start().advance_by_str(&t);
                        json!({"ok": true, "why": "", "toks": v, "at": at, "again": again, "all": all,
                               "pos": {"off": p.offset, "line": p.line, "col": p.column}})
                    }
                }
            }
            #[cfg(not(feature = "scalar"))]
            "scan" => {
                use ass_core::tokenizer::simd;
                let t = bytes(&op["t"]);
                let at: Vec<usize> = simd::scan_delimiters(&t).into_iter().collect();
                let hex: Vec<u32> = simd::parse_hex_u32(&t).map_or(vec![], |v| vec![v >> 16, v & 0xffff]);
                json!({"at": at, "hex": hex})
            }
            #[cfg(not(feature = "scalar"))]
            "utf8" => {
                use ass_core::utils::CoreError;
                let b: Vec<u8> = op["n"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                let bad = match ass_core::tokenizer::simd::validate_utf8_batch(&b) {
                    Ok(()) => json!([]),
                    Err(CoreError::Utf8Error { position, .. }) => json!([position]),
                    Err(e) => json!([e.to_string()]),
                };
                json!({"bad": bad})
            }
            o => panic!("op {o}"),
        }
    }
}
