// A parsed script as a mutable object.
use crate::parse::{data, event, section, style};
use crate::run::{bytes, jb, s, u, Machine};
use ass_core::parser::ast::{Event, EventType, Font, Graphic, ScriptInfo, Section, SectionType, Span, Style};
use ass_core::parser::errors::ParseError;
use ass_core::parser::script::{Change, EventBatch, LineContent, StyleBatch, UpdateOperation};
use ass_core::parser::Script;
use serde_json::{json, Value};

fn leak(v: &Value) -> &'static str {
    Box::leak(bytes(v).into_boxed_str())
}
fn opt(v: &Value) -> Option<&'static str> {
    v.as_array().unwrap().first().map(leak)
}
pub fn mk_style(d: &Value) -> Style<'static> {
    let f: Vec<&'static str> = d["f"].as_array().unwrap().iter().map(leak).collect();
    Style {
        name: f[0], parent: opt(&d["parent"]), fontname: f[1], fontsize: f[2], primary_colour: f[3], secondary_colour: f[4],
        outline_colour: f[5], back_colour: f[6], bold: f[7], italic: f[8], underline: f[9], strikeout: f[10], scale_x: f[11],
        scale_y: f[12], spacing: f[13], angle: f[14], border_style: f[15], outline: f[16], shadow: f[17], alignment: f[18],
        margin_l: f[19], margin_r: f[20], margin_v: f[21], encoding: f[22], margin_t: opt(&d["mt"]), margin_b: opt(&d["mb"]),
        relative_to: opt(&d["rt"]), span: Span::new(0, 0, 0, 0),
    }
}
pub fn mk_event(d: &Value) -> Event<'static> {
    let f: Vec<&'static str> = d["f"].as_array().unwrap().iter().map(leak).collect();
    let ty = match s(d, "ty") {
        "Dialogue" => EventType::Dialogue,
        "Comment" => EventType::Comment,
        "Picture" => EventType::Picture,
        "Sound" => EventType::Sound,
        "Movie" => EventType::Movie,
        _ => EventType::Command,
    };
    Event {
        event_type: ty, layer: f[0], start: f[1], end: f[2], style: f[3], name: f[4], margin_l: f[5], margin_r: f[6],
        margin_v: f[7], effect: f[8], text: f[9], margin_t: opt(&d["mt"]), margin_b: opt(&d["mb"]), span: Span::new(0, 0, 0, 0),
    }
}
fn mk_section(k: &str, ds: &Value) -> Section<'static> {
    let ds = ds.as_array().unwrap();
    let lines = |d: &Value| d["data"].as_array().unwrap().iter().map(leak).collect();
    match k {
        "info" => Section::ScriptInfo(ScriptInfo {
            fields: ds.iter().map(|d| (leak(&d["key"]), leak(&d["val"]))).collect(), span: Span::new(0, 0, 0, 0) }),
        "styles" => Section::Styles(ds.iter().map(mk_style).collect()),
        "events" => Section::Events(ds.iter().map(mk_event).collect()),
        "fonts" => Section::Fonts(ds.iter().map(|d| Font { filename: leak(&d["name"]), data_lines: lines(d), span: Span::new(0, 0, 0, 0) }).collect()),
        _ => Section::Graphics(ds.iter().map(|d| Graphic { filename: leak(&d["name"]), data_lines: lines(d), span: Span::new(0, 0, 0, 0) }).collect()),
    }
}
fn kind(t: SectionType) -> &'static str {
    match t {
        SectionType::ScriptInfo => "info",
        SectionType::Styles => "styles",
        SectionType::Events => "events",
        SectionType::Fonts => "fonts",
        SectionType::Graphics => "graphics",
    }
}
fn sp(x: &Span) -> Value {
    json!([x.start, x.end, x.line, x.column])
}
fn err(e: &ParseError) -> Value {
    let t = format!("{e:?}");
    json!(t.split(|c: char| !c.is_alphanumeric()).next().unwrap())
}
fn content(c: &LineContent) -> Value {
    match c {
        LineContent::Style(x) => style(x),
        LineContent::Event(x) => event(x),
        LineContent::Field(k, v) => json!({"key": jb(k), "val": jb(v)}),
    }
}
fn content_kind(c: &LineContent) -> &'static str {
    match c {
        LineContent::Style(_) => "styles",
        LineContent::Event(_) => "events",
        LineContent::Field(..) => "info",
    }
}
fn change(c: &Change) -> Value {
    match c {
        Change::Added { offset, content: x, line_number } => json!({"c": "added", "at": offset, "new": content(x), "no": line_number}),
        Change::Removed { offset, section_type, line_number } => json!({"c": "removed", "at": offset, "k": kind(*section_type), "no": line_number}),
        Change::Modified { offset, old_content, new_content, line_number } =>
            json!({"c": "modified", "at": offset, "old": content(old_content), "new": content(new_content), "no": line_number}),
        Change::SectionAdded { section: x, index } => json!({"c": "sec added", "k": kind(x.section_type()), "items": section(x)["items"], "at": index}),
        Change::SectionRemoved { section_type, index } => json!({"c": "sec removed", "k": kind(*section_type), "at": index}),
    }
}
fn view(sc: &Script) -> Value {
    let d = data(sc);
    let secs: Vec<Value> = sc.sections().iter().map(|x| {
        let ds = section(x)["items"].clone();
        let (at, ps): (Value, Vec<Value>) = match x {
            Section::ScriptInfo(i) => (sp(&i.span), i.fields.iter().map(|_| json!([0, 0, 0, 0])).collect()),
            Section::Styles(v) => (json!([0, 0, 0, 0]), v.iter().map(|i| sp(&i.span)).collect()),
            Section::Events(v) => (json!([0, 0, 0, 0]), v.iter().map(|i| sp(&i.span)).collect()),
            Section::Fonts(v) => (json!([0, 0, 0, 0]), v.iter().map(|i| sp(&i.span)).collect()),
            Section::Graphics(v) => (json!([0, 0, 0, 0]), v.iter().map(|i| sp(&i.span)).collect()),
        };
        let items: Vec<Value> = ds.as_array().unwrap().iter().zip(ps).map(|(d, p)| json!({"d": d, "p": p})).collect();
        json!({"k": kind(x.section_type()), "at": at, "items": items})
    }).collect();
    json!({"secs": secs, "sfmt": d["sfmt"], "efmt": d["efmt"], "track": sc.is_change_tracking_enabled(),
           "chg": sc.changes().iter().map(change).collect::<Vec<_>>(), "n": sc.change_count()})
}
fn operations(v: &Value) -> Vec<UpdateOperation<'static>> {
    v.as_array().unwrap().iter().map(|o| UpdateOperation {
        offset: o[0].as_u64().unwrap() as usize, new_line: leak(&o[1]), line_number: o[2].as_u64().unwrap() as u32 }).collect()
}
fn says(r: Result<LineContent<'static>, ParseError>) -> Value {
    match r {
        Ok(c) => json!({"err": "", "k": content_kind(&c), "d": content(&c)}),
        Err(e) => json!({"err": err(&e)}),
    }
}

/// Report a section that is as it was at the previous step as {"k": "same"}.
fn shorten(last: &mut Vec<Value>, mut v: Value) -> Value {
    let full = v["secs"].as_array().unwrap().clone();
    for (i, x) in full.iter().enumerate() {
        if last.get(i) == Some(x) {
            v["secs"][i] = json!({"k": "same"});
        }
    }
    *last = full;
    v
}

#[derive(Default)]
pub struct Mutable {
    last: Vec<Value>,
    now: Option<Script<'static>>,
    snap: Option<Script<'static>>,
}
impl Machine for Mutable {
    fn step(&mut self, op: &Value) -> Value {
        if s(op, "op") == "reset" {
            let sc = Script::parse(leak(&op["t"])).unwrap();
            self.snap = Some(sc.clone());
            let v = shorten(&mut self.last, view(&sc));
            self.now = Some(sc);
            return json!({"v": v, "res": {}});
        }
        let sc = self.now.as_mut().unwrap();
        let res = match s(op, "op") {
            "update" => match sc.update_line_at_offset(u(op, "at"), leak(&op["line"]), u(op, "no") as u32) {
                Ok(old) => json!({"err": "", "old": content(&old)}),
                Err(e) => json!({"err": err(&e)}),
            },
            "says" => says(sc.parse_line_auto(leak(&op["line"]), 7).map(|(k, c)| {
                assert_eq!(kind(k), content_kind(&c));
                c
            })),
            "says_in" => {
                let k = match s(op, "k") {
                    "info" => SectionType::ScriptInfo,
                    "styles" => SectionType::Styles,
                    "events" => SectionType::Events,
                    "fonts" => SectionType::Fonts,
                    _ => SectionType::Graphics,
                };
                says(sc.parse_line_in_section(k, leak(&op["line"]), 7).map_err(|e| match e {
                    ass_core::CoreError::Parse(p) => p,
                    e => panic!("other error {e}"),
                }))
            }
            "batch" => {
                let r = sc.batch_update_lines(operations(&op["ops"]));
                json!({"done": r.updated.iter().map(|(o, c)| json!([o, content(c)])).collect::<Vec<_>>(),
                       "failed": r.failed.iter().map(|(o, e)| json!([o, err(e)])).collect::<Vec<_>>()})
            }
            "atomic" => {
                let st = op["styles"].as_array().unwrap().first()
                    .map(|v| StyleBatch { styles: v.as_array().unwrap().iter().map(mk_style).collect() });
                let ev = op["events"].as_array().unwrap().first()
                    .map(|v| EventBatch { events: v.as_array().unwrap().iter().map(mk_event).collect() });
                match sc.atomic_batch_update(operations(&op["ops"]), st, ev) {
                    Ok(()) => json!({"err": ""}),
                    Err(e) => json!({"err": err(&e)}),
                }
            }
            "add" => json!({"from": if s(op, "k") == "styles" { sc.add_style(mk_style(&op["d"])) } else { sc.add_event(mk_event(&op["d"])) }}),
            "adds" => {
                let ds = op["ds"].as_array().unwrap();
                json!({"ix": if s(op, "k") == "styles" {
                    sc.batch_add_styles(StyleBatch { styles: ds.iter().map(mk_style).collect() })
                } else {
                    sc.batch_add_events(EventBatch { events: ds.iter().map(mk_event).collect() })
                }})
            }
            "add_section" => json!({"from": sc.add_section(mk_section(s(op, "k"), &op["ds"]))}),
            "remove_section" => match sc.remove_section(u(op, "sec")) {
                Ok(x) => json!({"err": "", "k": kind(x.section_type())}),
                Err(e) => json!({"err": err(&e)}),
            },
            "sfmt" | "efmt" => {
                let f: Vec<&'static str> = op["f"].as_array().unwrap().iter().map(leak).collect();
                if s(op, "op") == "sfmt" { sc.set_styles_format(f) } else { sc.set_events_format(f) }
                json!({"ok": true})
            }
            "track" => {
                if op["on"].as_bool().unwrap() { sc.enable_change_tracking() } else { sc.disable_change_tracking() }
                json!({"ok": true})
            }
            "forget" => {
                sc.clear_changes();
                json!({"ok": true})
            }
            "snap" => {
                self.snap = Some(sc.clone());
                json!({"ok": true})
            }
            "restore" => {
                *sc = self.snap.clone().unwrap();
                json!({"ok": true})
            }
            "diff" => json!({"d": sc.diff(self.snap.as_ref().unwrap()).iter().map(change).collect::<Vec<_>>()}),
            o => panic!("op {o}"),
        };
        json!({"res": res, "v": shorten(&mut self.last, view(self.now.as_ref().unwrap()))})
    }
}
