// Executor for style, line and script-information operations (spec/DocCmd.tla).
use crate::run::{bytes, jb, s, Machine};
use ass_editor::commands::{
    ApplyStyleCommand, CloneStyleCommand, CreateStyleCommand, DeleteScriptInfoCommand, DeleteStyleCommand, EditStyleCommand,
    EditorCommand, GetAllScriptInfoCommand, GetScriptInfoCommand, SetScriptInfoCommand,
};
use ass_editor::core::StyleBuilder;
use ass_editor::EditorDocument;
use serde_json::{json, Value};

pub struct DocCmds {
    doc: EditorDocument,
}
impl DocCmds {
    pub fn new() -> Self {
        Self { doc: EditorDocument::new() }
    }
}

fn ups(op: &Value) -> Vec<(String, String)> {
    op["ups"].as_array().unwrap().iter().map(|p| (bytes(&p[0]), bytes(&p[1]))).collect()
}
fn filter(op: &Value) -> Option<String> {
    op["filter"].as_array().unwrap().first().map(bytes)
}
/// A style builder that has been told these fields.
fn builder(told: &[(String, String)]) -> StyleBuilder {
    let mut x = StyleBuilder::new();
    for (k, v) in told {
        let n = || v.parse::<u32>().expect("number");
        let f = || v.parse::<f32>().expect("float");
        let on = v == "-1";
        x = match k.as_str() {
            "Name" => x.name(v),
            "Fontname" => x.font(v),
            "Fontsize" => x.size(n()),
            "PrimaryColour" => x.color(v),
            "SecondaryColour" => x.secondary_color(v),
            "OutlineColour" => x.outline_color(v),
            "BackColour" => x.back_color(v),
            "Bold" => x.bold(on),
            "Italic" => x.italic(on),
            "Underline" => x.underline(on),
            "StrikeOut" => x.strikeout(on),
            "ScaleX" => x.scale_x(f()),
            "ScaleY" => x.scale_y(f()),
            "Spacing" => x.spacing(f()),
            "Angle" => x.angle(f()),
            "BorderStyle" => x.border_style(n()),
            "Outline" => x.outline(f()),
            "Shadow" => x.shadow(f()),
            "Alignment" => x.align(n()),
            "MarginL" => x.margin_left(n()),
            "MarginR" => x.margin_right(n()),
            "MarginV" => x.margin_vertical(n()),
            "MarginT" => x.margin_top(n()),
            "MarginB" => x.margin_bottom(n()),
            "Encoding" => x.encoding(n()),
            "AlphaLevel" => x.alpha_level(n()),
            "RelativeTo" => x.relative_to(v),
            _ => panic!("style field {k}"),
        };
    }
    x
}
/// Field edits go through the shorthand where there is one and the value has its form.
macro_rules! edits {
    ($e:expr, $ups:expr, $font:ident, $size:ident, $color:ident, $bold:ident, $italic:ident, $align:ident, |$x:ident, $k:ident, $v:ident| $field:expr) => {{
        let mut e = $e;
        for (k, v) in $ups {
            let n = v.parse::<u32>().ok().filter(|n| n.to_string() == v);
            let flag = v == "-1" || v == "0";
            e = match (k.as_str(), n) {
                ("Fontname", _) => e.$font(&v),
                ("PrimaryColour", _) => e.$color(&v),
                ("Fontsize", Some(n)) => e.$size(n),
                ("Alignment", Some(n)) => e.$align(n),
                ("Bold", _) if flag => e.$bold(v == "-1"),
                ("Italic", _) if flag => e.$italic(v == "-1"),
                _ => {
                    let ($x, $k, $v) = (e, k, v);
                    $field
                }
            };
        }
        e
    }};
}
fn command(op: &Value) -> Box<dyn EditorCommand> {
    let t = |k: &str| bytes(&op[k]);
    match s(op, "op") {
        "create" => Box::new(CreateStyleCommand::new(t("name"), builder(&ups(op)))),
        "edit" => Box::new(edits!(EditStyleCommand::new(t("name")), ups(op), set_font, set_size, set_color, set_bold, set_italic, set_alignment, |x, k, v| x.set_field(&k, v))),
        "delete" => Box::new(DeleteStyleCommand::new(t("name"))),
        "clone" => Box::new(CloneStyleCommand::new(t("name"), t("to"))),
        "apply" => {
            let c = ApplyStyleCommand::new(t("name"), t("to"));
            Box::new(match filter(op) { Some(f) => c.with_filter(f), None => c })
        }
        "iset" => Box::new(SetScriptInfoCommand::new(t("key"), t("val"))),
        "idel" => Box::new(DeleteScriptInfoCommand::new(t("key"))),
        k => panic!("command {k}"),
    }
}
fn fluent(doc: &mut EditorDocument, op: &Value) -> bool {
    let t = |k: &str| bytes(&op[k]);
    match s(op, "op") {
        "create" => doc.styles().create(&t("name"), builder(&ups(op))).is_ok(),
        "edit" => edits!(doc.styles().edit(&t("name")), ups(op), font, size, color, bold, italic, alignment, |x, k, v| x.field(&k, &v)).apply().is_ok(),
        "delete" => doc.styles().delete(&t("name")).is_ok(),
        "clone" => doc.styles().clone(&t("name"), &t("to")).is_ok(),
        "apply" => {
            let a = doc.styles().apply(&t("name"), &t("to"));
            match filter(op) { Some(f) => a.with_filter(&f), None => a }.apply().is_ok()
        }
        "iset" => {
            let (k, v) = (t("key"), t("val"));
            let i = doc.info();
            match (k.as_str(), v.as_str()) {
                ("Title", _) => i.title(&v),
                ("Original Script", _) => i.author(&v),
                ("WrapStyle", "0" | "1" | "2" | "3" | "255") => i.wrap_style(v.parse().unwrap()),
                ("ScaledBorderAndShadow", "yes" | "no") => i.scaled_border_and_shadow(v == "yes"),
                _ => i.set(&k, &v),
            }.is_ok()
        }
        "idel" => doc.info().delete(&t("key")).is_ok(),
        k => panic!("fluent {k}"),
    }
}
fn direct(doc: &mut EditorDocument, op: &Value) -> bool {
    let t = |k: &str| bytes(&op[k]);
    match s(op, "op") {
        "addstyle" => doc.add_style_line(&t("line")).is_ok(),
        "setstyle" => doc.edit_style_line(&t("name"), &t("line")).is_ok(),
        "addevent" => doc.add_event_line(&t("line")).is_ok(),
        "text" => doc.edit_event_text(&t("old"), &t("new")).is_ok(),
        "iset" => doc.set_script_info_field(&t("key"), &t("val")).is_ok(),
        k => panic!("direct {k}"),
    }
}
fn pair(n: u32) -> Value {
    json!([n / 360_000, n % 360_000])
}
fn whole(v: &Value) -> u32 {
    bytes(v).parse().expect("number")
}
fn opt(v: Option<Value>) -> Value {
    json!(v.into_iter().collect::<Vec<_>>())
}
fn read<T, E>(r: Result<T, E>, none: Value, show: impl Fn(T) -> Value) -> Value {
    let ok = r.is_ok();
    json!({"ok": ok, "got": r.map(show).unwrap_or(none)})
}

impl Machine for DocCmds {
    fn step(&mut self, op: &Value) -> Value {
        let none = json!([]);
        match s(op, "op") {
            "reset" => {
                self.doc = EditorDocument::from_content(&bytes(&op["t"])).expect("content");
                json!({})
            }
            "undo" => {
                let r = self.doc.undo();
                json!({"ok": r.is_ok(), "after": jb(&self.doc.text())})
            }
            "iget" => {
                let k = bytes(&op["key"]);
                let r = match (s(op, "via"), k.as_str()) {
                    ("doc", _) => self.doc.get_script_info_field(&k),
                    ("fluent", "Title") => self.doc.info().get_title(),
                    ("fluent", "Original Script") => self.doc.info().get_author(),
                    ("fluent", _) => self.doc.info().get(&k),
                    _ => GetScriptInfoCommand::new(k).get_value(&self.doc),
                };
                read(r, none, |v| opt(v.map(|v| json!(jb(&v)))))
            }
            "iall" => {
                let r = if s(op, "via") == "fluent" { self.doc.info().all() } else { GetAllScriptInfoCommand::new().get_all(&self.doc) };
                read(r, none, |v| json!(v.iter().map(|(k, x)| json!([jb(k), jb(x)])).collect::<Vec<_>>()))
            }
            "res" => read(self.doc.info().get_resolution(), none, |v| v.map_or(json!([]), |(w, h)| json!([pair(w), pair(h)]))),
            "wrap" => read(self.doc.info().get_wrap_style(), none, |v| opt(v.map(|n| pair(u32::from(n))))),
            "scaled" => read(self.doc.info().get_scaled_border_and_shadow(), none, |v| opt(v.map(|b| json!(b)))),
            "setres" => {
                let ok = self.doc.info().resolution(whole(&op["w"]), whole(&op["hh"])).is_ok();
                json!({"ok": ok, "after": jb(&self.doc.text())})
            }
            _ => {
                let mut changed = 2;
                let ok = match s(op, "via") {
                    "doc" => direct(&mut self.doc, op),
                    "fluent" => fluent(&mut self.doc, op),
                    via => {
                        let c = command(op);
                        let r = if via == "exec" { self.doc.execute_command(c.as_ref()) } else { c.execute(&mut self.doc) };
                        if let Ok(r) = &r {
                            changed = i64::from(r.content_changed);
                        }
                        r.is_ok()
                    }
                };
                json!({"ok": ok, "after": jb(&self.doc.text()), "changed": changed})
            }
        }
    }
}
