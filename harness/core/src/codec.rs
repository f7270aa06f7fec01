// Times, colours, hexadecimal numbers, UU data, names; and overlapping events.
use crate::run::{bytes, jb, s, Machine};
use ass_core::analysis::events::overlap::{count_overlapping_events, find_overlapping_event_refs, find_overlapping_events};
use ass_core::parser::ast::{Font, Graphic, Span};
use ass_core::parser::Event;
use ass_core::tokenizer::simd::parse_hex_u32;
use ass_core::utils::{decode_uu_data, format_ass_time, parse_ass_time, parse_bgr_color, validate_ass_name};
use serde_json::{json, Value};

pub struct Codec;

fn pair(t: u32) -> Value {
    json!([t / 360_000, t % 360_000])
}
fn time<E>(r: Result<u32, E>) -> Value {
    r.map_or(json!([]), pair)
}

impl Machine for Codec {
    fn step(&mut self, op: &Value) -> Value {
        match s(op, "k") {
            "time" => json!({"v": time(parse_ass_time(&bytes(&op["s"])))}),
            "span" => {
                let (a, b) = (bytes(&op["s"]), bytes(&op["e"]));
                let e = Event { start: &a, end: &b, ..Event::default() };
                json!({"a": time(e.start_time_cs()), "b": time(e.end_time_cs()), "d": time(e.duration_cs())})
            }
            "ftime" => {
                let v = op["v"][0].as_u64().unwrap() * 360_000 + op["v"][1].as_u64().unwrap();
                let t = format_ass_time(v as u32);
                json!({"o": jb(&t), "back": time(parse_ass_time(&t))})
            }
            "colour" => json!({"v": parse_bgr_color(&bytes(&op["s"])).map_or(json!([]), |c| json!(c))}),
            "hex" => json!({"v": parse_hex_u32(&bytes(&op["s"])).map_or(json!([]), |v| json!([v >> 16, v & 0xffff]))}),
            "name" => json!({"v": validate_ass_name(&bytes(&op["s"]))}),
            "uu" | "uuenc" => {
                let ls: Vec<String> = op["ls"].as_array().unwrap().iter().map(bytes).collect();
                let rs: Vec<&str> = ls.iter().map(String::as_str).collect();
                let v = decode_uu_data(rs.iter().copied()).map_or(json!([-1]), |d| json!(d));
                if s(op, "k") == "uuenc" {
                    return json!({"v": v});
                }
                let f = Font { filename: "f", data_lines: rs.clone(), span: Span::new(0, 0, 0, 0) };
                let g = Graphic { filename: "g", data_lines: rs, span: Span::new(0, 0, 0, 0) };
                json!({"v": [v, f.decode_data().map_or(json!([-1]), |d| json!(d)),
                             g.decode_data().map_or(json!([-1]), |d| json!(d))]})
            }
            k => panic!("kind {k}"),
        }
    }
}

pub struct Overlap;

fn pairs(r: ass_core::Result<Vec<(usize, usize)>>) -> Value {
    r.map_or(json!([[0, 0]]), |v| json!(v.iter().map(|(a, b)| json!([a + 1, b + 1])).collect::<Vec<_>>()))
}
impl Machine for Overlap {
    fn step(&mut self, op: &Value) -> Value {
        let ts: Vec<(String, String)> =
            op["evs"].as_array().unwrap().iter().map(|e| (bytes(&e[0]), bytes(&e[1]))).collect();
        let evs: Vec<Event> = ts.iter().map(|(a, b)| Event { start: a, end: b, ..Event::default() }).collect();
        let refs: Vec<&Event> = evs.iter().collect();
        json!({"a": pairs(find_overlapping_events(&evs)), "b": pairs(find_overlapping_event_refs(&refs)),
               "n": count_overlapping_events(&evs).map_or(-1, |n| n as i64)})
    }
}
