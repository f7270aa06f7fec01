// Reading and writing a whole script.
use crate::run::{bytes, jb, Machine};
use ass_core::parser::ast::{Event, Section, Span, Style};
use ass_core::parser::{IssueSeverity, Script};
use serde_json::{json, Value};

pub struct Parse;

fn opt(o: Option<&str>) -> Value {
    match o {
        Some(x) => json!([jb(x)]),
        None => json!([]),
    }
}
fn fmt(o: Option<&[&str]>) -> Value {
    match o {
        Some(f) => json!([f.iter().map(|x| jb(x)).collect::<Vec<_>>()]),
        None => json!([]),
    }
}
pub fn sp(s: &Span) -> Value {
    json!([s.start, s.end, s.line, s.column])
}
pub fn style(s: &Style) -> Value {
    let f: Vec<Value> = [
        s.name, s.fontname, s.fontsize, s.primary_colour, s.secondary_colour, s.outline_colour, s.back_colour, s.bold,
        s.italic, s.underline, s.strikeout, s.scale_x, s.scale_y, s.spacing, s.angle, s.border_style, s.outline,
        s.shadow, s.alignment, s.margin_l, s.margin_r, s.margin_v, s.encoding,
    ]
    .iter()
    .map(|x| jb(x))
    .collect();
    json!({"f": f, "parent": opt(s.parent), "mt": opt(s.margin_t), "mb": opt(s.margin_b), "rt": opt(s.relative_to)})
}
pub fn event(e: &Event) -> Value {
    let f: Vec<Value> =
        [e.layer, e.start, e.end, e.style, e.name, e.margin_l, e.margin_r, e.margin_v, e.effect, e.text]
            .iter()
            .map(|x| jb(x))
            .collect();
    json!({"ty": format!("{:?}", e.event_type), "f": f, "mt": opt(e.margin_t), "mb": opt(e.margin_b)})
}
pub fn section(s: &Section) -> Value {
    match s {
        Section::ScriptInfo(i) => json!({"k": "info", "items":
            i.fields.iter().map(|(k, v)| json!({"key": jb(k), "val": jb(v)})).collect::<Vec<_>>()}),
        Section::Styles(v) => json!({"k": "styles", "items": v.iter().map(style).collect::<Vec<_>>()}),
        Section::Events(v) => json!({"k": "events", "items": v.iter().map(event).collect::<Vec<_>>()}),
        Section::Fonts(v) => json!({"k": "fonts", "items": v.iter().map(|f|
            json!({"name": jb(f.filename), "data": f.data_lines.iter().map(|x| jb(x)).collect::<Vec<_>>()})).collect::<Vec<_>>()}),
        Section::Graphics(v) => json!({"k": "graphics", "items": v.iter().map(|f|
            json!({"name": jb(f.filename), "data": f.data_lines.iter().map(|x| jb(x)).collect::<Vec<_>>()})).collect::<Vec<_>>()}),
    }
}
pub fn data(s: &Script) -> Value {
    json!({
        "ver": format!("{:?}", s.version()),
        "sfmt": fmt(s.styles_format()), "efmt": fmt(s.events_format()),
        "secs": s.sections().iter().map(section).collect::<Vec<_>>(),
    })
}
pub fn spans(s: &Section) -> Value {
    match s {
        Section::ScriptInfo(_) => json!([]),
        Section::Styles(v) => json!(v.iter().map(|x| sp(&x.span)).collect::<Vec<_>>()),
        Section::Events(v) => json!(v.iter().map(|x| sp(&x.span)).collect::<Vec<_>>()),
        Section::Fonts(v) => json!(v.iter().map(|x| sp(&x.span)).collect::<Vec<_>>()),
        Section::Graphics(v) => json!(v.iter().map(|x| sp(&x.span)).collect::<Vec<_>>()),
    }
}
pub fn issues(s: &Script) -> Value {
    json!(s.issues().iter().filter(|i| i.severity != IssueSeverity::Info)
        .map(|i| json!({"sev": format!("{:?}", i.severity), "line": i.line})).collect::<Vec<_>>())
}

impl Machine for Parse {
    fn step(&mut self, op: &Value) -> Value {
        let t = bytes(&op["t"]);
        let s = match Script::parse(&t) {
            Ok(s) => s,
            Err(_) => return json!({"ok": false}),
        };
        let mut out = json!({"ok": true, "doc": data(&s), "iss": issues(&s)});
        out["spans"] = json!(s.sections().iter().map(spans).collect::<Vec<_>>());
        out["info"] = json!(s.sections().iter().map(|x| match x {
            Section::ScriptInfo(i) => sp(&i.span), _ => json!([]) }).collect::<Vec<_>>());
        out["bounds"] = json!(s.section_boundaries().iter().map(|(_, r)| json!([r.start, r.end])).collect::<Vec<_>>());
        // which section each probed offset belongs to
        let mut at = vec![];
        if let Some(ps) = op["probe"].as_array() {
            for p in ps {
                let o = p.as_u64().unwrap() as usize;
                let hit = s.section_at_offset(o).and_then(|x| s.sections().iter().position(|y| std::ptr::eq(x, y)));
                at.push(json!([o, hit.map_or(0, |i| i + 1)]));
            }
        }
        out["at"] = json!(at);
        let ser = s.to_ass_string();
        out["ser"] = jb(&ser);
        match Script::parse(&ser) {
            Ok(s2) => {
                out["doc2"] = data(&s2);
                out["same"] = json!(s2.to_ass_string() == ser);
            }
            Err(_) => {
                out["doc2"] = json!(null);
                out["same"] = json!(false);
            }
        }
        out
    }
}
