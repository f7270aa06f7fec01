// Positions, lines, columns, selections and the edits at them (spec/Places.tla).
use crate::run::{bytes, jb, s, u, Machine};
use ass_editor::core::{PositionBuilder, Selection};
use ass_editor::{EditorDocument, Position, Range};
use serde_json::{json, Value};

pub struct Places {
    doc: EditorDocument,
}
fn pair(r: &Range) -> Value {
    json!([r.start.offset, r.end.offset])
}
impl Places {
    pub fn new() -> Self {
        Self { doc: EditorDocument::new() }
    }
    fn done(&self, ok: bool) -> Value {
        json!({"ok": ok, "after": jb(&self.doc.text()), "count": self.doc.len_lines()})
    }
}

impl Machine for Places {
    fn step(&mut self, op: &Value) -> Value {
        match s(op, "op") {
            "reset" => {
                self.doc = EditorDocument::from_content(&bytes(&op["t"])).expect("content");
                json!({"count": self.doc.len_lines()})
            }
            "undo" => {
                let r = self.doc.undo();
                json!({"ok": r.is_ok(), "after": jb(&self.doc.text())})
            }
            "where" => {
                let p = Position::new(u(op, "at"));
                let a = self.doc.position_to_line_column(p).map_or(json!([]), |x| json!([x.line, x.column]));
                let b = self.doc.position_to_line_col(p).map_or(json!([]), |x| json!([x.0, x.1]));
                let c = self.doc.at_pos(p).to_line_column().map_or(json!([]), |x| json!([x.0, x.1]));
                json!({"got": [a, b, c]})
            }
            "place" => {
                let (line, col) = (u(op, "line"), u(op, "col"));
                let b = PositionBuilder::new();
                let rope = self.doc.rope();
                let r = match s(op, "by") {
                    "offset" => b.offset(line).build(rope),
                    "start" => b.at_line_start(line).build(rope),
                    "end" => b.at_line_end(line).build(rope),
                    "column" => self.doc.line_column_to_position(line, col),
                    _ => b.line(line).column(col).build(rope),
                };
                json!({"got": r.map_or(-1, |p| p.offset as i64)})
            }
            "text" => {
                let range = Range { start: Position::new(u(op, "from")), end: Position::new(u(op, "to")) };
                json!({"got": jb(&self.doc.select(range).text())})
            }
            "at" => {
                let x = bytes(&op["x"]);
                let n = u(op, "n");
                let at = match s(op, "by") {
                    "line" => self.doc.at_line(u(op, "at")),
                    "start" => Ok(self.doc.at_start()),
                    "end" => Ok(self.doc.at_end()),
                    _ => Ok(self.doc.at_pos(Position::new(u(op, "at")))),
                };
                let ok = at
                    .and_then(|p| match s(op, "kind") {
                        "insert" => p.insert_text(&x),
                        "break" => p.insert_line(),
                        "delete" => p.delete(n),
                        "back" => p.backspace(n),
                        _ => p.replace_to_line_end(&x),
                    })
                    .is_ok();
                self.done(ok)
            }
            "sel" => {
                let range = Range { start: Position::new(u(op, "from")), end: Position::new(u(op, "to")) };
                let (x, y, n) = (bytes(&op["x"]), bytes(&op["y"]), u(op, "n"));
                let c = self.doc.select(range);
                let ok = match s(op, "kind") {
                    "with" => c.replace_with(&x),
                    "delete" => c.delete(),
                    "wrap" => c.wrap_with_tag(&x, &y),
                    "indent" => c.indent(n),
                    _ => c.unindent(n),
                }
                .is_ok();
                self.done(ok)
            }
            "ranges" => {
                let at = |k: &str| Position::new(u(op, k));
                let (r, q, p) = (Range::new(at("a"), at("b")), Range::new(at("c"), at("d")), at("p"));
                let sel = Selection::new(at("a"), at("b"));
                json!({"range": pair(&r), "has": r.contains(p), "empty": r.is_empty(), "length": r.len(), "overlaps": r.overlaps(&q),
                       "meet": r.intersection(&q).map_or(json!([]), |m| pair(&m)), "union": pair(&r.union(&q)), "ext": pair(&r.extend_to(p)),
                       "sel": pair(&sel.range()), "rev": sel.is_reversed(), "none": sel.is_empty(), "selext": pair(&sel.extend_to(p).range())})
            }
            o => panic!("operation {o}"),
        }
    }
}
