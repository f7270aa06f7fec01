// Text clean-up helpers.
use crate::run::{jb, u, Machine};
use ass_core::utils::utf8::*;
use ass_core::utils::CoreError;
use serde_json::{json, Value};

pub struct Text;

impl Machine for Text {
    fn step(&mut self, op: &Value) -> Value {
        let b: Vec<u8> = op["n"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        let mut out = json!({});
        out["bom"] = detect_bom(&b).map_or(json!([]), |(t, n)| json!([t.encoding_name(), n]));
        out["bad"] = match validate_utf8(&b) {
            Ok(()) => json!([]),
            Err(CoreError::Utf8Error { position, message }) => {
                // "Invalid UTF-8 sequence of N bytes ..." or "Incomplete ..."
                let n: usize = message.strip_prefix("Invalid UTF-8 sequence of ")
                    .and_then(|m| m.split(' ').next()).and_then(|m| m.parse().ok()).unwrap_or(0);
                json!([position, n])
            }
            Err(e) => json!([e.to_string()]),
        };
        let (rec, n) = recover_utf8(&b);
        out["rec"] = jb(&rec);
        out["nrec"] = json!(n);
        let g = detect_encoding(&b);
        out["guess"] = json!([g.encoding, (g.confidence * 100.0).round() as i64, g.has_bom]);
        if let Ok(t) = std::str::from_utf8(&b) {
            let (s, had) = strip_bom(t);
            out["strip"] = json!([jb(s), had]);
            out["count"] = json!(count_replacement_chars(t));
            let (c, cut) = truncate_at_char_boundary(t, u(op, "k"));
            out["cut"] = json!([jb(c), cut]);
            out["plain"] = json!(is_valid_ass_text(t));
            out["looks"] = json!(is_likely_ass_content(t));
            out["ends"] = jb(&normalize_line_endings(t));
            out["spaces"] = jb(&normalize_whitespace(t, false));
            out["single"] = jb(&normalize_whitespace(t, true));
            out["noctl"] = jb(&remove_control_chars(t));
            out["lines"] = jb(&trim_lines(t));
        }
        out
    }
}
