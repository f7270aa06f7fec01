// Tag and karaoke commands on a range of text (spec/TagCmd.tla).
use crate::run::{bytes, jb, s, u, Machine};
use ass_editor::commands::*;
use ass_editor::{EditorDocument, Position, Range};
use serde_json::{json, Value};

pub struct Tags {
    doc: EditorDocument,
}
fn list(op: &Value) -> Vec<u32> {
    op["list"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect()
}
fn ktype(op: &Value) -> KaraokeType {
    match s(op, "ktype") {
        "k" => KaraokeType::Standard,
        "kf" => KaraokeType::Fill,
        "ko" => KaraokeType::Outline,
        "kt" => KaraokeType::Transition,
        k => panic!("type {k}"),
    }
}
fn flag(op: &Value, k: &str) -> bool {
    op[k].as_bool().unwrap()
}
// beats of a quarter each
fn beats(op: &Value) -> f32 {
    op["den"].as_f64().unwrap() as f32 / 4.0
}

impl Tags {
    pub fn new() -> Self {
        Self { doc: EditorDocument::new() }
    }
    fn range(op: &Value) -> Range {
        Range { start: Position::new(u(op, "from")), end: Position::new(u(op, "to")) }
    }
    fn command(op: &Value) -> Box<dyn EditorCommand> {
        let t = |k: &str| bytes(&op[k]);
        let range = Self::range(op);
        let dur = u(op, "dur") as u32;
        match s(op, "op") {
            "insert" => {
                let c = InsertTagCommand::new(range.start, t("tag"));
                Box::new(if flag(op, "wrapit") { c } else { c.no_auto_wrap() })
            }
            "remove" => {
                let c = RemoveTagCommand::new(range);
                let c = if flag(op, "all") { c } else { c.pattern(t("pat")) };
                Box::new(if flag(op, "keep") { c.keep_empty_overrides() } else { c })
            }
            "replace" => {
                let c = ReplaceTagCommand::new(range, t("pat"), t("with"));
                Box::new(if flag(op, "all") { c.all() } else { c })
            }
            "wrap" => {
                let c = WrapTagCommand::new(range, t("tag"));
                Box::new(if t("close").is_empty() { c } else { c.closing_tag(t("close")) })
            }
            "adjust" => Box::new(match s(op, "kind") {
                "scale" => AdjustKaraokeCommand::scale(range, op["num"].as_f64().unwrap() as f32 / op["den"].as_f64().unwrap() as f32),
                "offset" => AdjustKaraokeCommand::offset(range, op["num"].as_i64().unwrap() as i32),
                "set" => AdjustKaraokeCommand::set_all(range, u(op, "num") as u32),
                _ => AdjustKaraokeCommand::custom(range, list(op)),
            }),
            "gen" => {
                let c = GenerateKaraokeCommand::new(range, dur).karaoke_type(ktype(op));
                Box::new(if flag(op, "auto") { c } else { c.manual_syllables() })
            }
            "split" => {
                let c = SplitKaraokeCommand::new(range, list(op).iter().map(|n| *n as usize).collect());
                Box::new(if dur == 0 { c } else { c.duration(dur) })
            }
            "apply" => Box::new(match s(op, "kind") {
                "equal" => ApplyKaraokeCommand::equal(range, dur, ktype(op)),
                "beat" => ApplyKaraokeCommand::beat(range, u(op, "num") as u32, beats(op), ktype(op)),
                _ => ApplyKaraokeCommand::pattern(range, list(op), ktype(op)),
            }),
            o => panic!("command {o}"),
        }
    }
    fn fluent(&mut self, op: &Value) -> bool {
        let t = |k: &str| bytes(&op[k]);
        let range = Self::range(op);
        let dur = u(op, "dur") as u32;
        let d = &mut self.doc;
        match s(op, "op") {
            "insert" if flag(op, "wrapit") => d.tags().at(range.start).insert(&t("tag")).is_ok(),
            "insert" => d.tags().at(range.start).insert_raw(&t("tag")).is_ok(),
            "remove" if flag(op, "all") => d.tags().in_range(range).remove_all().is_ok(),
            "remove" => d.tags().in_range(range).remove_pattern(&t("pat")).is_ok(),
            "replace" if flag(op, "all") => d.tags().in_range(range).replace_all(&t("pat"), &t("with")).is_ok(),
            "replace" => d.tags().in_range(range).replace(&t("pat"), &t("with")).is_ok(),
            "wrap" if t("close").is_empty() => d.tags().in_range(range).wrap(&t("tag")).is_ok(),
            "wrap" => d.tags().in_range(range).wrap_with(&t("tag"), &t("close")).is_ok(),
            "adjust" => {
                let a = d.karaoke().in_range(range).adjust();
                match s(op, "kind") {
                    "scale" => a.scale(op["num"].as_f64().unwrap() as f32 / op["den"].as_f64().unwrap() as f32),
                    "offset" => a.offset(op["num"].as_i64().unwrap() as i32),
                    "set" => a.set_all(u(op, "num") as u32),
                    _ => a.custom(list(op)),
                }
                .is_ok()
            }
            "gen" => {
                let g = d.karaoke().in_range(range).generate(dur).karaoke_type(ktype(op));
                if flag(op, "auto") { g } else { g.manual_syllables() }.execute().is_ok()
            }
            "split" => {
                let x = d.karaoke().in_range(range).split(list(op).iter().map(|n| *n as usize).collect());
                if dur == 0 { x } else { x.duration(dur) }.execute().is_ok()
            }
            "apply" => {
                let a = d.karaoke().in_range(range).apply();
                match s(op, "kind") {
                    "equal" => a.equal(dur, ktype(op)),
                    "beat" => a.beat(u(op, "num") as u32, beats(op), ktype(op)),
                    _ => a.pattern(list(op), ktype(op)),
                }
                .is_ok()
            }
            o => panic!("fluent {o}"),
        }
    }
}

impl Machine for Tags {
    fn step(&mut self, op: &Value) -> Value {
        match s(op, "op") {
            "reset" => {
                self.doc = EditorDocument::from_content(&bytes(&op["t"])).expect("content");
                json!({})
            }
            "undo" => {
                let r = self.doc.undo();
                json!({"ok": r.is_ok(), "after": jb(&self.doc.text())})
            }
            "parse" => {
                let range = Self::range(op);
                let r = if s(op, "via") == "fluent" {
                    self.doc.tags().in_range(range).parse()
                } else {
                    self.doc.text_range(range).and_then(|t| ParseTagCommand::new(range).with_positions().parse_tags_from_text(&t))
                };
                let got: Vec<Value> = r.iter().flatten()
                    .map(|x| json!({"tag": jb(&x.tag), "at": x.position.map_or(-1, |p| p.offset as i64), "params": x.parameters.iter().map(|p| jb(p)).collect::<Vec<_>>()}))
                    .collect();
                json!({"ok": r.is_ok(), "got": got})
            }
            _ => {
                let mut rng = json!([]);
                let ok = if s(op, "via") == "fluent" {
                    self.fluent(op)
                } else {
                    let r = Self::command(op).execute(&mut self.doc);
                    if let Ok(Some(x)) = r.as_ref().map(|r| r.modified_range) {
                        rng = json!([x.start.offset, x.end.offset]);
                    }
                    r.is_ok()
                };
                json!({"ok": ok, "after": jb(&self.doc.text()), "rng": rng})
            }
        }
    }
}
