// Lines made by the builders, and events edited through one (spec/Build.tla).
use crate::run::{bytes, jb, s, u, Machine};
use ass_core::ScriptVersion;
use ass_editor::{EditorDocument, EventBuilder, StyleBuilder};
use serde_json::{json, Value};

pub struct LinesMachine {
    doc: EditorDocument,
}
fn version(how: &str) -> ScriptVersion {
    match how {
        "ssa" => ScriptVersion::SsaV4,
        "ext" => ScriptVersion::AssV4Plus,
        _ => ScriptVersion::AssV4,
    }
}
fn sets(op: &Value) -> Vec<(String, String)> {
    op["sets"].as_array().unwrap().iter().map(|x| (s(x, "f").to_string(), bytes(&x["v"]))).collect()
}
fn set_event<'a>(b: EventBuilder<'a>, f: &str, v: String) -> EventBuilder<'a> {
    let n = || v.parse::<u32>().expect("number");
    match f {
        "Layer" => b.layer(n()),
        "Start" => b.start_time(v),
        "End" => b.end_time(v),
        "Style" => b.style(v),
        "Name" => b.speaker(v),
        "MarginL" => b.margin_left(n()),
        "MarginR" => b.margin_right(n()),
        "MarginV" => b.margin_vertical(n()),
        "MarginT" => b.margin_top(n()),
        "MarginB" => b.margin_bottom(n()),
        "Effect" => b.effect(v),
        "Text" => b.text(v),
        o => panic!("event field {o}"),
    }
}
fn set_style(b: StyleBuilder, f: &str, v: &str) -> StyleBuilder {
    let n = || v.parse::<u32>().expect("number");
    let x = || v.parse::<f32>().expect("number");
    let y = v == "-1";
    match f {
        "Name" => b.name(v),
        "Fontname" => b.font(v),
        "Fontsize" => b.size(n()),
        "PrimaryColour" => b.color(v),
        "SecondaryColour" => b.secondary_color(v),
        "OutlineColour" => b.outline_color(v),
        "BackColour" => b.back_color(v),
        "Bold" => b.bold(y),
        "Italic" => b.italic(y),
        "Underline" => b.underline(y),
        "StrikeOut" => b.strikeout(y),
        "ScaleX" => b.scale_x(x()),
        "ScaleY" => b.scale_y(x()),
        "Spacing" => b.spacing(x()),
        "Angle" => b.angle(x()),
        "BorderStyle" => b.border_style(n()),
        "Outline" => b.outline(x()),
        "Shadow" => b.shadow(x()),
        "Alignment" => b.align(n()),
        "MarginL" => b.margin_left(n()),
        "MarginR" => b.margin_right(n()),
        "MarginV" => b.margin_vertical(n()),
        "MarginT" => b.margin_top(n()),
        "MarginB" => b.margin_bottom(n()),
        "Encoding" => b.encoding(n()),
        "AlphaLevel" => b.alpha_level(n()),
        "RelativeTo" => b.relative_to(v),
        o => panic!("style field {o}"),
    }
}
fn fresh<'a>(from: &str) -> EventBuilder<'a> {
    match from {
        "dialogue" => EventBuilder::dialogue(),
        "comment" => EventBuilder::comment(),
        _ => EventBuilder::new(),
    }
}
fn shown(r: Result<String, ass_editor::EditorError>) -> Value {
    json!({"ok": r.is_ok(), "line": jb(&r.unwrap_or_default())})
}

impl LinesMachine {
    pub fn new() -> Self {
        Self { doc: EditorDocument::new() }
    }
}
impl Machine for LinesMachine {
    fn step(&mut self, op: &Value) -> Value {
        let fmt: Vec<String> = op["fmt"].as_array().map(|a| a.iter().map(bytes).collect()).unwrap_or_default();
        let fmt: Vec<&str> = fmt.iter().map(String::as_str).collect();
        match s(op, "op") {
            "reset" => {
                self.doc = EditorDocument::from_content(&bytes(&op["t"])).expect("content");
                json!({})
            }
            "event" => {
                let b = sets(op).into_iter().fold(fresh(s(op, "from")), |b, (f, v)| set_event(b, &f, v));
                shown(match s(op, "how") {
                    "plain" => b.build(),
                    "format" => b.build_with_format(&fmt),
                    how => b.build_with_version(version(how)),
                })
            }
            "style" => {
                let b = if s(op, "from") == "default" { StyleBuilder::default_style() } else { StyleBuilder::new() };
                let b = sets(op).into_iter().fold(b, |b, (f, v)| set_style(b, &f, &v));
                shown(match s(op, "how") {
                    "plain" => b.build(),
                    "format" => b.build_with_format(&fmt),
                    how => b.build_with_version(version(how)),
                })
            }
            "edit" => {
                let (from, sets) = (s(op, "from").to_string(), sets(op));
                let r = self.doc.edit_event_with_builder(u(op, "n"), |b| {
                    let b = if from == "keep" { b } else { fresh(&from) };
                    sets.into_iter().fold(b, |b, (f, v)| set_event(b, &f, v))
                });
                let mut o = shown(r);
                o["after"] = jb(&self.doc.text());
                o
            }
            "undo" => {
                let r = self.doc.undo();
                json!({"ok": r.is_ok(), "after": jb(&self.doc.text())})
            }
            o => panic!("operation {o}"),
        }
    }
}
