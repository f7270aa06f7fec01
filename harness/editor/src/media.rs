// Font and graphics commands (spec/Media.tla).
use crate::run::{bytes, jb, s, Machine};
use ass_core::parser::ast::Section;
use ass_core::Script;
use ass_editor::commands::*;
use ass_editor::EditorDocument;
use serde_json::{json, Value};

pub struct Media {
    doc: EditorDocument,
}
fn fonts(op: &Value) -> bool {
    s(op, "kind") == "fonts"
}
// bytes of the last file of the first section of the kind, as the parser decodes them
fn decoded(text: &str, op: &Value) -> Value {
    let script = Script::parse(text).expect("script");
    for section in script.sections() {
        let data = match section {
            Section::Fonts(f) if fonts(op) => f.last().and_then(|f| f.decode_data().ok()),
            Section::Graphics(g) if !fonts(op) => g.last().and_then(|g| g.decode_data().ok()),
            _ => continue,
        };
        return json!(data.unwrap_or_default());
    }
    json!([])
}

impl Media {
    pub fn new() -> Self {
        Self { doc: EditorDocument::new() }
    }
    fn fluent(&mut self, op: &Value) -> bool {
        let (name, d) = (bytes(&op["name"]), &mut self.doc);
        match (s(op, "op"), fonts(op)) {
            ("add", f) => {
                let bin: Vec<u8> = op["bin"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                let lns: Vec<String> = op["lns"].as_array().unwrap().iter().map(bytes).collect();
                match (f, s(op, "how") == "bytes") {
                    (true, true) => d.fonts().add_binary(&name, &bin).is_ok(),
                    (true, false) => d.fonts().add(&name, lns).is_ok(),
                    (false, true) => d.graphics().add_binary(&name, &bin).is_ok(),
                    (false, false) => d.graphics().add(&name, lns).is_ok(),
                }
            }
            ("remove", true) => d.fonts().remove(&name).is_ok(),
            ("remove", false) => d.graphics().remove(&name).is_ok(),
            (_, true) => d.fonts().clear().is_ok(),
            (_, false) => d.graphics().clear().is_ok(),
        }
    }
    fn run(&mut self, op: &Value, command: &dyn EditorCommand) -> Value {
        if op["fluent"].as_bool().unwrap_or(false) {
            let before = self.doc.text();
            let ok = self.fluent(op);
            return json!({"ok": ok, "changed": before != self.doc.text(), "after": jb(&self.doc.text())});
        }
        let r = if op["unit"].as_bool().unwrap_or(false) { self.doc.execute_command(command) } else { command.execute(&mut self.doc) };
        json!({"ok": r.is_ok(), "changed": r.as_ref().is_ok_and(|r| r.content_changed), "after": jb(&self.doc.text())})
    }
}

impl Machine for Media {
    fn step(&mut self, op: &Value) -> Value {
        match s(op, "op") {
            "reset" => {
                self.doc = EditorDocument::from_content(&bytes(&op["t"])).expect("content");
                json!({})
            }
            "undo" => {
                let r = self.doc.undo();
                json!({"ok": r.is_ok(), "after": jb(&self.doc.text())})
            }
            "list" => {
                let r = if fonts(op) { ListFontsCommand::new().list(&self.doc) } else { ListGraphicsCommand::new().list(&self.doc) };
                // the same through the fluent calls
                let first = r.iter().flatten().next().cloned().unwrap_or_default();
                let (again, count, has) = if fonts(op) {
                    (self.doc.fonts().list(), self.doc.fonts().count(), self.doc.fonts().exists(&first))
                } else {
                    (self.doc.graphics().list(), self.doc.graphics().count(), self.doc.graphics().exists(&first))
                };
                let told = json!([again.iter().flatten().map(|n| jb(n)).collect::<Vec<_>>(), count.map_or(-1, |n| n as i64), has.unwrap_or(false)]);
                json!({"ok": r.is_ok(), "told": told, "names": r.iter().flatten().map(|n| jb(n)).collect::<Vec<_>>()})
            }
            "add" => {
                let name = bytes(&op["name"]);
                let bin: Vec<u8> = op["bin"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                let lns: Vec<String> = op["lns"].as_array().unwrap().iter().map(bytes).collect();
                let raw = s(op, "how") == "bytes";
                let (lines, command): (Vec<String>, Box<dyn EditorCommand>) = if fonts(op) {
                    let c = if raw { AddFontCommand::from_binary(name, &bin) } else { AddFontCommand::new(name, lns) };
                    (c.data_lines.clone(), Box::new(c))
                } else {
                    let c = if raw { AddGraphicCommand::from_binary(name, &bin) } else { AddGraphicCommand::new(name, lns) };
                    (c.data_lines.clone(), Box::new(c))
                };
                let mut out = self.run(op, command.as_ref());
                let dec = decoded(&self.doc.text(), op);
                let o = out.as_object_mut().unwrap();
                o.insert("lines".into(), json!(lines.iter().map(|l| jb(l)).collect::<Vec<_>>()));
                o.insert("dec".into(), dec);
                out
            }
            "remove" => {
                let name = bytes(&op["name"]);
                if fonts(op) { self.run(op, &RemoveFontCommand::new(name)) } else { self.run(op, &RemoveGraphicCommand::new(name)) }
            }
            "clear" => {
                if fonts(op) { self.run(op, &ClearFontsCommand::new()) } else { self.run(op, &ClearGraphicsCommand::new()) }
            }
            o => panic!("operation {o}"),
        }
    }
}
