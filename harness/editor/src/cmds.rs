// Executor for the event commands and queries (spec/EvCmd.tla).
use crate::run::{bytes, jb, s, u, Machine};
use ass_core::parser::ast::EventType;
use ass_editor::commands::{
    BatchDeleteEventsCommand, DeleteEventCommand, EditorCommand, EffectOperation, EventEffectCommand, MergeEventsCommand,
    SplitEventCommand, TimingAdjustCommand, ToggleEventTypeCommand,
};
use ass_editor::core::fluent::{EventFilter, EventInfo, EventSortCriteria, EventSortOptions};
use ass_editor::EditorDocument;
use serde_json::{json, Value};

pub struct Cmds {
    doc: EditorDocument,
}
impl Cmds {
    pub fn new() -> Self {
        Self { doc: EditorDocument::new() }
    }
}

fn idx(op: &Value) -> Vec<usize> {
    op["idx"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}
fn int(op: &Value, k: &str) -> i32 {
    op[k].as_i64().unwrap() as i32
}
fn how(op: &Value) -> EffectOperation {
    match s(op, "how") {
        "set" => EffectOperation::Set,
        "clear" => EffectOperation::Clear,
        "append" => EffectOperation::Append,
        "prepend" => EffectOperation::Prepend,
        k => panic!("effect {k}"),
    }
}
fn command(op: &Value) -> Box<dyn EditorCommand> {
    match s(op, "op") {
        "toggle" => Box::new(ToggleEventTypeCommand::new(idx(op))),
        "retime" => Box::new(TimingAdjustCommand::new(idx(op), int(op, "ds"), int(op, "de"))),
        "effect" => Box::new(EventEffectCommand::new(idx(op), bytes(&op["e"]), how(op))),
        "split" => Box::new(SplitEventCommand::new(u(op, "n"), bytes(&op["time"]))),
        "merge" => Box::new(MergeEventsCommand::new(u(op, "n"), u(op, "m")).with_separator(bytes(&op["sep"]))),
        "delete" => Box::new(DeleteEventCommand::new(u(op, "n"))),
        "delmany" => Box::new(BatchDeleteEventsCommand::new(idx(op))),
        k => panic!("command {k}"),
    }
}
const FIELDS: [&str; 10] = ["layer", "start", "end", "style", "name", "margin_l", "margin_r", "margin_v", "effect", "text"];
fn field(name: &str) -> &'static str {
    FIELDS.into_iter().find(|f| *f == name).unwrap_or("nonsense")
}

/// The same command through the fluent interface.
fn fluent(doc: &mut EditorDocument, op: &Value) -> bool {
    let ev = doc.events();
    match s(op, "op") {
        "toggle" => match idx(op)[..] {
            [] => ev.toggle_type().apply().is_ok(),
            [n] => ev.toggle_type().event(n).apply().is_ok(),
            _ => ev.toggle_type().events(idx(op)).apply().is_ok(),
        },
        "retime" => {
            let t = ev.timing().events(idx(op));
            match (int(op, "ds"), int(op, "de")) {
                (a, b) if a == b => t.shift(a).is_ok(),
                (a, 0) => t.shift_start(a).is_ok(),
                (0, b) => t.shift_end(b).is_ok(),
                (a, b) => t.adjust(a, b).is_ok(),
            }
        }
        "effect" => {
            let f = ev.effects().events(idx(op));
            let e = bytes(&op["e"]);
            match s(op, "how") {
                "set" => f.set(&e).is_ok(),
                "clear" => f.clear().is_ok(),
                "append" => f.append(&e).is_ok(),
                _ => f.prepend(&e).is_ok(),
            }
        }
        "split" => ev.split(u(op, "n"), &bytes(&op["time"])).is_ok(),
        "merge" => ev.merge(u(op, "n"), u(op, "m")).with_separator(&bytes(&op["sep"])).apply().is_ok(),
        "delete" => ev.delete(u(op, "n")).is_ok(),
        "delmany" => match u(op, "n") {
            0 => ev.delete_multiple(idx(op)).is_ok(),
            _ => ev.delete_query().by_indices(idx(op)).execute().is_ok(),
        },
        k => panic!("fluent {k}"),
    }
}
fn digits(note: &str) -> i64 {
    let d: String = note.chars().filter(|c| c.is_ascii_digit()).collect();
    d.parse().unwrap_or(0)
}

fn opt(v: &Value) -> Option<&Value> {
    v.as_array().and_then(|a| a.first())
}
fn optb(v: &Value) -> Option<String> {
    opt(v).map(bytes)
}
fn ty(name: &str) -> EventType {
    EventType::parse_type(name).expect("event type")
}
fn crit(name: &str) -> Option<EventSortCriteria> {
    Some(match name {
        "start" => EventSortCriteria::StartTime,
        "end" => EventSortCriteria::EndTime,
        "duration" => EventSortCriteria::Duration,
        "style" => EventSortCriteria::Style,
        "speaker" => EventSortCriteria::Speaker,
        "layer" => EventSortCriteria::Layer,
        "index" => EventSortCriteria::Index,
        "text" => EventSortCriteria::Text,
        _ => return None,
    })
}
fn info(e: &EventInfo) -> Value {
    let v = &e.event;
    let o = |m: &Option<String>| m.as_ref().map(|x| vec![jb(x)]).unwrap_or_default();
    json!({
        "index": e.index, "ty": v.event_type.as_str(),
        "f": [jb(&v.layer), jb(&v.start), jb(&v.end), jb(&v.style), jb(&v.name), jb(&v.margin_l), jb(&v.margin_r),
              jb(&v.margin_v), jb(&v.effect), jb(&v.text)],
        "mt": o(&v.margin_t), "mb": o(&v.margin_b),
        "line": e.line_number, "s": e.range.start.offset, "e": e.range.end.offset,
    })
}
fn filter(op: &Value) -> EventFilter {
    EventFilter {
        event_type: opt(&op["ty"]).map(|t| ty(t.as_str().unwrap())),
        style_pattern: optb(&op["style"]),
        speaker_pattern: optb(&op["speaker"]),
        text_pattern: optb(&op["text"]),
        time_range: opt(&op["time"]).map(|t| (t[0].as_u64().unwrap() as u32, t[1].as_u64().unwrap() as u32)),
        layer: opt(&op["layer"]).map(|x| x.as_u64().unwrap() as u32),
        effect_pattern: optb(&op["effect"]),
        use_regex: false,
        case_sensitive: op["exact"].as_bool().unwrap(),
    }
}
/// The query built from single calls, or from a filter and sort options in one go.
macro_rules! query {
    ($doc:expr, $op:expr, $whole:expr) => {{
        let op = $op;
        let mut q = $doc.events().query();
        let f = filter(op);
        if $whole {
            q = q.filter(f);
        } else {
            if let Some(t) = f.event_type { q = q.filter_by_type(t); }
            if let Some(p) = &f.style_pattern { q = q.filter_by_style(p); }
            if let Some(p) = &f.speaker_pattern { q = q.filter_by_speaker(p); }
            if let Some(p) = &f.text_pattern { q = q.filter_by_text(p); }
            if let Some(p) = &f.effect_pattern { q = q.filter_by_effect(p); }
            if let Some(l) = f.layer { q = q.filter_by_layer(l); }
            if let Some((a, b)) = f.time_range { q = q.filter_by_time_range(a, b); }
            q = q.case_sensitive(f.case_sensitive);
        }
        if let Some(c) = crit(s(op, "by")) {
            let up = op["up"].as_bool().unwrap();
            let then = crit(s(op, "then"));
            if $whole {
                // Ascending is what sort options say by default.
                let plain = EventSortOptions { criteria: c, secondary: then, ..Default::default() };
                q = q.sort_by(if up { plain } else { EventSortOptions { ascending: false, ..plain } });
            } else {
                q = q.sort(c);
                if let Some(t) = then { q = q.then_by(t); }
                if !up { q = q.descending(); }
            }
        }
        if let Some(n) = opt(&op["limit"]) { q = q.limit(n.as_u64().unwrap() as usize); }
        q
    }};
}

impl Machine for Cmds {
    fn step(&mut self, op: &Value) -> Value {
        match s(op, "op") {
            "reset" => {
                self.doc = EditorDocument::from_content(&bytes(&op["t"])).expect("content");
                json!({})
            }
            "undo" => {
                let r = self.doc.undo();
                json!({"ok": r.is_ok(), "after": jb(&self.doc.text())})
            }
            "query" => {
                let whole = op["whole"].as_bool().unwrap();
                let hits = query!(self.doc, op, whole).execute().expect("query");
                let idx = query!(self.doc, op, !whole).indices().expect("indices");
                assert_eq!(idx, hits.iter().map(|h| h.index).collect::<Vec<_>>(), "two ways to build a query differ");
                let count = query!(self.doc, op, whole).count().expect("count");
                let mut one = op.clone();
                one["limit"] = json!([]);
                let first = query!(self.doc, &one, whole).first().expect("first");
                let first: Vec<Value> = if opt(&op["limit"]).map(|n| n == &json!(0)).unwrap_or(false) { vec![] } else { first.iter().map(info).collect() };
                json!({"hits": hits.iter().map(info).collect::<Vec<_>>(), "count": count,
                       "total": self.doc.events().count().expect("total"), "first": first})
            }
            "get" => {
                let n = u(op, "n");
                let got = if op["via"] == "acc" { self.doc.events().event(n).get() } else { self.doc.events().get(n) };
                json!({"got": got.expect("get").iter().map(info).collect::<Vec<_>>()})
            }
            "edit" => {
                let mods: Vec<(&'static str, String)> = op["mods"].as_array().unwrap().iter()
                    .map(|m| (field(m[0].as_str().unwrap()), bytes(&m[1]))).collect();
                let ok = self.doc.edit_event_by_index(u(op, "n"), |_| mods).is_ok();
                json!({"ok": ok, "after": jb(&self.doc.text()), "cnt": -1, "changed": 2})
            }
            _ => {
                let (mut cnt, mut changed) = (-1, 2);
                let ok = match s(op, "via") {
                    "fluent" => fluent(&mut self.doc, op),
                    via => {
                        let c = command(op);
                        let r = if via == "exec" { self.doc.execute_command(c.as_ref()) } else { c.execute(&mut self.doc) };
                        if let Ok(r) = &r {
                            changed = r.content_changed as i64;
                            if matches!(s(op, "op"), "toggle" | "retime" | "effect") {
                                cnt = digits(r.message.as_deref().unwrap_or(""));
                            }
                        }
                        r.is_ok()
                    }
                };
                json!({"ok": ok, "after": jb(&self.doc.text()), "cnt": cnt, "changed": changed})
            }
        }
    }
}
