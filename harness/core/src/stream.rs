// The streaming reader and its line processor.
use crate::run::{jb, Machine};
use ass_core::parser::streaming::{LineProcessor, ParserState, StreamingParser};
use serde_json::{json, Value};

pub struct Stream {
    parser: StreamingParser,
    lines: LineProcessor,
}
impl Stream {
    pub fn new() -> Self {
        Self { parser: StreamingParser::new(), lines: LineProcessor::new() }
    }
}

fn raw(v: &Value) -> Vec<u8> {
    v.as_array().expect("bytes").iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn report(p: &LineProcessor, out: &mut Value) {
    let one = |o: &Option<String>| o.as_ref().map_or(json!([]), |x| json!([jb(x)]));
    out["line"] = json!(p.context.line_number);
    out["sec"] = json!(p.context.current_section.map_or(String::new(), |k| format!("{k:?}")));
    out["state"] = json!(match &p.state {
        ParserState::ExpectingSection => "top".to_string(),
        ParserState::InSection(k) => format!("in {k:?}"),
        ParserState::InEvent { section, .. } => format!("event {section:?}"),
    });
    out["efmt"] = one(&p.context.events_format);
    out["sfmt"] = one(&p.context.styles_format);
}

impl Machine for Stream {
    fn step(&mut self, op: &Value) -> Value {
        let mut out = json!({});
        match op["op"].as_str().unwrap() {
            "reset" => *self = Self::new(),
            "feed" => {
                out["ok"] = json!(self.parser.feed_chunk(&raw(&op["n"])).is_ok());
                let (p, buf) = self.parser.verif_state();
                out["buf"] = jb(buf);
                report(p, &mut out);
            }
            "line" => {
                let line = String::from_utf8(raw(&op["n"])).unwrap();
                self.lines.process_line(&line).expect("line");
                report(&self.lines, &mut out);
            }
            "clear" => {
                self.parser.reset();
                self.lines.reset();
                let (p, buf) = self.parser.verif_state();
                out["buf"] = jb(buf);
                report(p, &mut out);
            }
            "finish" => {
                let p = std::mem::replace(&mut self.parser, StreamingParser::new());
                out["ok"] = json!(p.finish().is_ok());
            }
            o => panic!("op {o}"),
        }
        out
    }
}
