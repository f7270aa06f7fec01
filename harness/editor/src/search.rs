// Searching and replacing text in a document (spec/Search.tla).
use crate::run::{bytes, jb, s, u, Machine};
use ass_editor::utils::indexing::{create_search_index, FstSearchIndex, LinearSearchIndex};
use ass_editor::utils::search::{create_search, DocumentSearch, SearchOptions, SearchResult, SearchScope};
use ass_editor::{EditorDocument, Position, Range};
use serde_json::{json, Value};

pub struct Search {
    doc: EditorDocument,
    engine: Box<dyn DocumentSearch>,
    changes: Vec<Range>,
}

// a regular expression that spells a text
fn spelled(p: &str) -> String {
    let mut out = String::new();
    for c in p.chars() {
        if c.is_ascii_punctuation() && c != '<' && c != '>' { // those two would be word boundaries
            out.push('\\');
        }
        out.push(c);
    }
    out
}
fn told(r: &SearchResult<'_>) -> Value {
    json!({"s": r.start.offset, "e": r.end.offset, "text": jb(&r.text), "ctx": jb(&r.context), "line": r.line, "col": r.column})
}

impl Search {
    pub fn new() -> Self {
        Self { doc: EditorDocument::new(), engine: create_search(), changes: Vec::new() }
    }
    fn options(op: &Value) -> SearchOptions {
        SearchOptions {
            case_sensitive: op["exact"].as_bool().unwrap(),
            whole_words: op["whole"].as_bool().unwrap(),
            max_results: u(op, "max"),
            use_regex: s(op, "regex") != "no",
            scope: match s(op, "scope") {
                "all" => SearchScope::All,
                "range" => SearchScope::Range(Range { start: Position::new(u(op, "a")), end: Position::new(u(op, "b")) }),
                "lines" => SearchScope::Lines { start: u(op, "a"), end: u(op, "b") },
                _ => SearchScope::Sections(op["names"].as_array().unwrap().iter().map(bytes).collect()),
            },
        }
    }
    fn pattern(op: &Value) -> String {
        let p = bytes(&op["pat"]);
        match s(op, "regex") {
            "no" => p,
            "yes" => spelled(&p),
            _ => format!("({}", spelled(&p)),
        }
    }
}

impl Machine for Search {
    fn step(&mut self, op: &Value) -> Value {
        match s(op, "op") {
            "reset" => {
                self.doc = EditorDocument::from_content(&bytes(&op["t"])).expect("content");
                self.engine = match s(op, "engine") {
                    "made" => create_search(),
                    "index" => create_search_index(),
                    "fst" => Box::new(FstSearchIndex::new()),
                    _ => Box::new(LinearSearchIndex::new()),
                };
                self.changes.clear();
                json!({})
            }
            "build" => {
                self.changes.clear();
                json!({"ok": self.engine.build_index(&self.doc).is_ok()})
            }
            "update" => {
                if self.changes.is_empty() {
                    self.changes.push(Range::empty(Position::new(0)));
                }
                let r = self.engine.update_index(&self.doc, &self.changes);
                self.changes.clear();
                json!({"ok": r.is_ok()})
            }
            "clear" => {
                self.engine.clear_index();
                json!({})
            }
            "edit" => {
                let range = Range { start: Position::new(u(op, "a")), end: Position::new(u(op, "b")) };
                let r = self.doc.replace(range, &bytes(&op["new"]));
                self.changes.push(range);
                json!({"ok": r.is_ok(), "after": jb(&self.doc.text())})
            }
            "search" => {
                let r = self.engine.search(&Self::pattern(op), &Self::options(op));
                json!({"ok": r.is_ok(), "got": r.iter().flatten().map(told).collect::<Vec<_>>()})
            }
            "replace" => {
                let r = self.engine.find_replace(&mut self.doc, &Self::pattern(op), &bytes(&op["new"]), &Self::options(op));
                let got: Vec<Value> = r.iter().flatten().map(told).collect();
                for x in r.iter().flatten() {
                    self.changes.push(Range { start: x.start, end: x.end });
                }
                json!({"ok": r.is_ok(), "got": got, "after": jb(&self.doc.text())})
            }
            o => panic!("op {o}"),
        }
    }
}
