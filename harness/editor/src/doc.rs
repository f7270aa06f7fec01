// Executor for the document model (spec/EdDoc.tla).
use crate::run::{bytes, jb, s, u, Machine};
use ass_editor::commands::{BatchCommand, DocumentCommandExt, EditorCommand};
use ass_editor::core::history::UndoStackConfig;
use ass_editor::commands::CommandResult;
use ass_editor::{
    DeleteTextCommand, DocumentEvent, EditorDocument, EditorError, InsertTextCommand, Position, Range,
    ReplaceTextCommand,
};
use serde_json::{json, Value};
use std::sync::mpsc::{channel, Receiver};

pub struct DocMachine {
    doc: EditorDocument,
    rx: Option<Receiver<DocumentEvent>>,
    want_cost: bool,
}

fn rg(op: &Value) -> Range {
    Range::new(Position::new(u(op, "s")), Position::new(u(op, "e")))
}
pub fn kind(e: &EditorError) -> String {
    let d = format!("{e:?}");
    d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
fn command(op: &Value) -> Box<dyn EditorCommand> {
    match s(op, "k") {
        "ins" => Box::new(InsertTextCommand::new(Position::new(u(op, "s")), bytes(&op["t"]))),
        "del" => Box::new(DeleteTextCommand::new(rg(op))),
        "rep" => Box::new(ReplaceTextCommand::new(rg(op), bytes(&op["t"]))),
        "batch" => {
            let mut b = BatchCommand::new("batch".into());
            for c in op["cmds"].as_array().unwrap() {
                b = b.add_command(command(c));
            }
            Box::new(b)
        }
        k => panic!("command {k}"),
    }
}
fn ev(e: DocumentEvent) -> Value {
    match e {
        DocumentEvent::TextInserted { position, text, length } => {
            json!({"k":"ins","s":position.offset,"e":position.offset,"new":jb(&text),"old":[],"len":length})
        }
        DocumentEvent::TextDeleted { range, deleted_text } => {
            json!({"k":"del","s":range.start.offset,"e":range.end.offset,"new":[],"old":jb(&deleted_text),"len":0})
        }
        DocumentEvent::TextReplaced { range, old_text, new_text } => {
            json!({"k":"rep","s":range.start.offset,"e":range.end.offset,"new":jb(&new_text),"old":jb(&old_text),"len":0})
        }
        _ => json!({"k":"other","s":0,"e":0,"new":[],"old":[],"len":0}),
    }
}

thread_local! { static TOLD: std::cell::Cell<(i64, bool)> = const { std::cell::Cell::new((-2, false)) }; }

/// What a command reports about itself: the new cursor and whether it changed anything.
fn told(r: &CommandResult) {
    TOLD.set((r.new_cursor.map(|p| p.offset as i64).unwrap_or(-1), r.content_changed));
}

/// Apply one edit operation to a document.
fn edit(doc: &mut EditorDocument, op: &Value) -> Result<(), EditorError> {
    let text = if op["t"].is_array() { bytes(&op["t"]) } else { String::new() };
    let at = || Position::new(u(op, "s"));
    match s(op, "op") {
        "ins" => doc.insert(at(), &text),
        "del" => doc.delete(rg(op)),
        "rep" => doc.replace(rg(op), &text),
        "inc" => doc.edit_incremental(rg(op), &text).map(|_| ()),
        "iins" => doc.insert_incremental(at(), &text).map(|_| ()),
        "idel" => doc.delete_incremental(rg(op)).map(|_| ()),
        "safe" => doc.edit_safe(rg(op), &text),
        "fins" => doc.at_pos(at()).insert_text(&text).map(|_| ()),
        "frep" => doc.select(rg(op)).replace_with(&text).map(|_| ()),
        "fdel" => doc.select(rg(op)).delete().map(|_| ()),
        "qins" => doc.insert_at(at(), &text).map(|_| ()),
        "qdel" => doc.delete_range(rg(op)).map(|_| ()),
        "qrep" => doc.replace_range(rg(op), &text).map(|_| ()),
        "cmd" => match doc.execute_command(command(op).as_ref()) {
            Ok(r) if r.success => Ok(told(&r)),
            Ok(_) => Err(EditorError::CommandFailed { message: String::new() }),
            Err(e) => Err(e),
        },
        "xbatch" => match command(op).execute(doc) {
            Ok(r) if r.success => Ok(told(&r)),
            Ok(_) => Err(EditorError::CommandFailed { message: String::new() }),
            Err(e) => Err(e),
        },
        k => panic!("edit {k}"),
    }
}

impl DocMachine {
    pub fn new() -> Self {
        Self { doc: EditorDocument::new(), rx: None, want_cost: false }
    }
    fn obs(&mut self, r: Result<(), EditorError>, cost: usize) -> Value {
        let evs: Vec<Value> = match &self.rx {
            Some(rx) => rx.try_iter().map(ev).collect(),
            None => vec![],
        };
        let st = self.doc.undo_manager().stats();
        let text = self.doc.text();
        let n = self.doc.len_bytes();
        let whole = self.doc.text_range(Range::new(Position::new(0), Position::new(n)));
        json!({
            "res": if r.is_ok() {"ok"} else {"err"},
            "err": r.err().map(|e| kind(&e)).unwrap_or_default(),
            "text": jb(&text),
            "len": n,
            "same": whole.map(|w| w == text).unwrap_or(false) && self.doc.is_empty() == text.is_empty(),
            "mod": self.doc.is_modified(),
            "cu": self.doc.can_undo(), "cr": self.doc.can_redo(),
            "uc": st.undo_count, "rc": st.redo_count, "mem": st.memory_usage,
            "cur": self.doc.cursor_position().map(|p| p.offset as i64).unwrap_or(-1),
            "ev": evs, "cost": cost,
            "nc": TOLD.get().0, "chg": TOLD.get().1,
        })
    }
}

impl Machine for DocMachine {
    fn step(&mut self, op: &Value) -> Value {
        match s(op, "op") {
            "reset" => {
                let text = bytes(&op["t"]);
                self.doc = EditorDocument::from_content(&text).expect("content");
                self.want_cost = op["cfg"].as_bool().unwrap_or(false);
                if op["cfg"].as_bool() == Some(true) {
                    self.doc.undo_manager_mut().set_config(UndoStackConfig {
                        max_entries: u(op, "maxe"),
                        max_memory: u(op, "maxm"),
                        enable_compression: true,
                        arena_reset_interval: u(op, "arena"),
                    });
                }
                let (tx, rx) = channel();
                self.doc.set_event_channel(tx);
                self.rx = Some(rx);
                self.obs(Ok(()), 0)
            }
            "undo" => {
                let r = self.doc.undo().map(|_| ());
                self.obs(r, 0)
            }
            "redo" => {
                let r = self.doc.redo().map(|_| ());
                self.obs(r, 0)
            }
            "setcfg" => {
                self.doc.undo_manager_mut().set_config(UndoStackConfig {
                    max_entries: u(op, "maxe"),
                    max_memory: u(op, "maxm"),
                    enable_compression: true,
                    arena_reset_interval: u(op, "arena"),
                });
                self.obs(Ok(()), 0)
            }
            "cursor" => {
                self.doc.set_cursor_position(Some(Position::new(u(op, "s"))));
                self.obs(Ok(()), 0)
            }
            "clearhist" => {
                self.doc.undo_manager_mut().clear();
                self.obs(Ok(()), 0)
            }
            _ => {
                let cost = if self.want_cost {
                    // What this edit costs on a fresh, unlimited history.
                    let mut d = EditorDocument::from_content(&self.doc.text()).expect("content");
                    d.undo_manager_mut().set_config(UndoStackConfig {
                        max_entries: 1_000_000,
                        max_memory: 0,
                        enable_compression: true,
                        arena_reset_interval: 0,
                    });
                    let _ = edit(&mut d, op);
                    d.undo_manager().stats().memory_usage
                } else {
                    0
                };
                TOLD.set((-2, false));
                let r = edit(&mut self.doc, op);
                self.obs(r, cost)
            }
        }
    }
}
