// Executors for sessions (spec/Sessions.tla), the event channel (spec/Channel.tla) and the
// extension manager (spec/ExtLife.tla).
use crate::doc::kind;
use crate::run::{bytes, jb, s, u, Machine};
use ass_editor::core::errors::EditorError;
use ass_editor::{
    DocumentEvent, DocumentEventFilter, EditorDocument, EditorExtension, EditorSessionManager, EventChannel,
    EventChannelConfig, EventHandler, ExtensionCommand, ExtensionContext, ExtensionInfo, ExtensionManager,
    ExtensionResult, ExtensionState, Position, Range, SessionConfig,
};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Log = Arc<Mutex<Vec<Value>>>;
fn list(op: &Value, k: &str) -> Vec<String> {
    op[k].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}
fn fail() -> EditorError {
    EditorError::CommandFailed { message: "asked to fail".into() }
}

// ------------------------------------------------------------------ sessions
pub struct Sessions {
    m: EditorSessionManager,
    mark: Instant,
}
impl Sessions {
    pub fn new() -> Self {
        Self { m: EditorSessionManager::new(), mark: Instant::now() }
    }
}
impl Machine for Sessions {
    fn step(&mut self, op: &Value) -> Value {
        let id = op["id"].as_str().unwrap_or("").to_string();
        let mut val = json!([]);
        let mut late = false;
        let mut gone = json!([]);
        if s(op, "op") == "reset" {
            *self = Self::new();
        }
        let mut m = self.m.clone();
        let res: Result<(), EditorError> = match s(op, "op") {
            "reset" => {
                self.m = EditorSessionManager::with_config(SessionConfig {
                    max_sessions: u(op, "max"),
                    auto_cleanup: op["auto"].as_bool().unwrap(),
                    ..SessionConfig::default()
                });
                Ok(())
            }
            "create" => m.create_session_with_document(id, EditorDocument::from_content(&bytes(&op["t"])).unwrap()),
            "new" => m.create_session(id),
            "switch" => m.switch_session(&id),
            "remove" => m.remove_session(&id).map(|x| {
                gone = json!([x.id, jb(&x.document.text()), x.operation_count]);
            }),
            "read" => m.with_document(&id, |d| Ok(d.text())).map(|t| val = jb(&t)),
            "edit" => m
                .with_document_mut(&id, |d| {
                    d.insert(Position::new(d.len_bytes()), &bytes(&op["t"]))?;
                    if op["ok"].as_bool().unwrap() { Ok(d.text()) } else { Err(fail()) }
                })
                .map(|t| val = jb(&t)),
            "mark" => {
                std::thread::sleep(Duration::from_millis(2));
                self.mark = Instant::now();
                std::thread::sleep(Duration::from_millis(40));
                Ok(())
            }
            "cleanup" => {
                std::thread::sleep(Duration::from_millis(1));
                let t0 = Instant::now();
                let age = match s(op, "age") {
                    "any" => Duration::ZERO,
                    "marked" => self.mark.elapsed(),
                    _ => Duration::from_secs(1_000_000),
                };
                let r = m.cleanup_stale_sessions(age).map(|n| val = json!([n]));
                late = t0.elapsed() > Duration::from_millis(15);
                r
            }
            "arena" => {
                m.reset_shared_arena();
                Ok(())
            }
            k => panic!("op {k}"),
        };
        let mut ids = self.m.list_sessions().unwrap();
        ids.sort();
        let texts: Vec<Value> =
            ids.iter().map(|i| jb(&self.m.with_document(i, |d| Ok(d.text())).unwrap_or_default())).collect();
        let st = self.m.stats();
        json!({"res": res.err().map(|e| kind(&e)).unwrap_or_default(), "val": val, "gone": gone, "late": late, "ids": ids, "texts": texts,
               "active": self.m.active_session().unwrap().map(|x| vec![x]).unwrap_or_default(),
               "n": st.active_sessions, "mem": st.total_memory_usage, "resets": st.arena_resets})
    }
}

// ------------------------------------------------------------------ event channel
struct Spy {
    who: usize,
    pri: i32,
    filter: DocumentEventFilter,
    fail: Vec<String>,
    log: Log,
}
fn name(e: &DocumentEvent) -> String {
    match e {
        DocumentEvent::CustomEvent { event_type, .. } => format!("*{event_type}"),
        _ => format!("{e:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string(),
    }
}
impl EventHandler for Spy {
    fn handle_event(&mut self, e: &DocumentEvent) -> ass_editor::Result<()> {
        self.log.lock().unwrap().push(json!([self.who, name(e), serial(e)]));
        if self.fail.contains(&name(e)) { Err(fail()) } else { Ok(()) }
    }
    fn event_filter(&self) -> DocumentEventFilter {
        self.filter.clone()
    }
    fn priority(&self) -> i32 {
        self.pri
    }
}
// Every event carries its serial number in one of its fields.
fn make(name: &str, n: usize) -> DocumentEvent {
    let at = Position::new(n);
    let rg = Range::new(Position::new(n), Position::new(n + 2));
    let t = || n.to_string();
    match name {
        "TextInserted" => DocumentEvent::text_inserted(at, "é+".into()),
        "TextDeleted" => DocumentEvent::text_deleted(rg, "ab".into()),
        "TextReplaced" => DocumentEvent::text_replaced(rg, "ab".into(), "c".into()),
        "SelectionChanged" => DocumentEvent::SelectionChanged { old_selection: None, new_selection: Some(rg) },
        "CursorMoved" => DocumentEvent::cursor_moved(Position::new(0), at),
        "DocumentSaved" => DocumentEvent::document_saved(t(), true),
        "DocumentLoaded" => DocumentEvent::DocumentLoaded { file_path: "f".into(), size: n },
        "UndoPerformed" => DocumentEvent::UndoPerformed { action_description: "u".into(), changes_count: n },
        "RedoPerformed" => DocumentEvent::RedoPerformed { action_description: "u".into(), changes_count: n },
        "ValidationCompleted" => DocumentEvent::validation_completed(n, 0, 0, 1),
        "SearchCompleted" => {
            DocumentEvent::SearchCompleted { pattern: "p".into(), matches_count: n, hit_limit: false, search_time_us: 1 }
        }
        "ParsingCompleted" => {
            DocumentEvent::ParsingCompleted { success: true, sections_count: n, parse_time_ms: 1, error_message: None }
        }
        "ExtensionChanged" => DocumentEvent::ExtensionChanged { extension_name: t(), loaded: true },
        "ConfigChanged" => DocumentEvent::ConfigChanged { key: t(), old_value: None, new_value: "v".into() },
        c => DocumentEvent::CustomEvent { event_type: c[1..].into(), data: HashMap::from([("n".to_string(), t())]) },
    }
}
fn serial(e: &DocumentEvent) -> usize {
    match e {
        DocumentEvent::TextInserted { position, .. } => position.offset,
        DocumentEvent::TextDeleted { range, .. } | DocumentEvent::TextReplaced { range, .. } => range.start.offset,
        DocumentEvent::SelectionChanged { new_selection, .. } => new_selection.unwrap().start.offset,
        DocumentEvent::CursorMoved { new_position, .. } => new_position.offset,
        DocumentEvent::DocumentSaved { file_path, .. } => file_path.parse().unwrap(),
        DocumentEvent::DocumentLoaded { size, .. } => *size,
        DocumentEvent::UndoPerformed { changes_count, .. } | DocumentEvent::RedoPerformed { changes_count, .. } => *changes_count,
        DocumentEvent::ValidationCompleted { issues_count, .. } => *issues_count,
        DocumentEvent::SearchCompleted { matches_count, .. } => *matches_count,
        DocumentEvent::ParsingCompleted { sections_count, .. } => *sections_count,
        DocumentEvent::ExtensionChanged { extension_name, .. } => extension_name.parse().unwrap(),
        DocumentEvent::ConfigChanged { key, .. } => key.parse().unwrap(),
        DocumentEvent::CustomEvent { data, .. } => data["n"].parse().unwrap(),
    }
}
pub struct Channel {
    c: EventChannel,
    log: Log,
    who: usize,
    rx: Option<futures::channel::mpsc::UnboundedReceiver<DocumentEvent>>,
}
impl Channel {
    pub fn new() -> Self {
        Self { c: EventChannel::new(), log: Log::default(), who: 0, rx: None }
    }
    fn drain(&mut self) -> Vec<Value> {
        let mut v = vec![];
        if let Some(rx) = &mut self.rx {
            while let Ok(Some(e)) = rx.try_next() {
                v.push(json!([0, name(&e), serial(&e)]));
            }
        }
        v
    }
}
fn opt(op: &Value, k: &str) -> Option<bool> {
    match s(op, k) {
        "yes" => Some(true),
        "no" => Some(false),
        _ => None,
    }
}
impl Machine for Channel {
    fn step(&mut self, op: &Value) -> Value {
        let mut val = json!([]);
        let mut queue = json!([]);
        let res: Result<(), EditorError> = match s(op, "op") {
            "reset" => {
                *self = Self::new();
                self.c = EventChannel::with_config(EventChannelConfig {
                    max_handlers: u(op, "max"),
                    enable_batching: op["batching"].as_bool().unwrap(),
                    max_batch_size: 2,
                    ..EventChannelConfig::default()
                });
                Ok(())
            }
            "register" => {
                self.who += 1;
                let mut f = DocumentEventFilter::new();
                if op["inc"].is_array() {
                    f = f.include_types(list(op, "inc"));
                }
                if op["exc"].is_array() {
                    f = f.exclude_types(list(op, "exc"));
                }
                if let Some(b) = opt(op, "mods") {
                    f = f.include_modifications(b);
                }
                if let Some(b) = opt(op, "cur") {
                    f = f.include_cursor_events(b);
                }
                let h = Spy { who: self.who, pri: op["pri"].as_i64().unwrap() as i32, filter: f, fail: list(op, "fail"), log: self.log.clone() };
                self.c.register_handler(Box::new(h)).map(|id| val = json!([id]))
            }
            "unregister" => self.c.unregister_handler(u(op, "id")).map(|b| val = json!([b])),
            "clear" => self.c.clear_handlers(),
            "dispatch" => self.c.dispatch(make(s(op, "ev"), u(op, "n"))),
            "batch" => {
                let n = u(op, "n");
                self.c.dispatch_batch(list(op, "evs").iter().enumerate().map(|(i, e)| make(e, n + i)).collect())
            }
            "setup" => {
                self.rx = Some(self.c.setup_async());
                Ok(())
            }
            "hangup" => {
                self.rx = None;
                Ok(())
            }
            "post" => self.c.dispatch_async(make(s(op, "ev"), u(op, "n"))),
            "drain" => {
                queue = json!(self.drain());
                Ok(())
            }
            "facts" => {
                let e = make(s(op, "ev"), u(op, "n"));
                let r = e.affected_range().map(|r| vec![r.start.offset, r.end.offset]).unwrap_or_default();
                val = json!([e.is_modification(), e.affects_text(), r]);
                Ok(())
            }
            k => panic!("op {k}"),
        };
        let st = self.c.stats();
        json!({"res": res.err().map(|e| kind(&e)).unwrap_or_default(), "val": val, "queue": queue,
               "log": std::mem::take(&mut *self.log.lock().unwrap()),
               "stats": [st.events_dispatched, st.handlers_count, st.events_filtered, st.async_events_queued]})
    }
}

// ------------------------------------------------------------------ extensions
struct Ext {
    who: usize,
    info: ExtensionInfo,
    cmds: Vec<String>,
    init: bool,
    down: bool,
    log: Log,
}
impl Ext {
    // what an extension does with its context: read and write configuration and data
    fn visit(&self, what: &str, c: &mut dyn ExtensionContext) {
        let seen = c.get_config("k").unwrap_or_default();
        let data = c.get_extension_data(&self.info.name, "d").unwrap_or_default();
        let text = c.current_document().map(|d| d.text()).unwrap_or_default();
        self.log.lock().unwrap().push(json!([self.who, what, seen, data, text]));
        let tag = format!("{}{}", what, self.who);
        c.set_config("k".into(), tag.clone()).unwrap();
        c.set_extension_data("d".into(), tag).unwrap();
    }
}
impl EditorExtension for Ext {
    fn info(&self) -> &ExtensionInfo {
        &self.info
    }
    fn initialize(&mut self, c: &mut dyn ExtensionContext) -> ass_editor::Result<()> {
        self.visit("init", c);
        if self.init { Ok(()) } else { Err(fail()) }
    }
    fn shutdown(&mut self, c: &mut dyn ExtensionContext) -> ass_editor::Result<()> {
        self.visit("down", c);
        if self.down { Ok(()) } else { Err(fail()) }
    }
    fn state(&self) -> ExtensionState {
        ExtensionState::Uninitialized
    }
    fn execute_command(
        &mut self,
        id: &str,
        args: &HashMap<String, String>,
        c: &mut dyn ExtensionContext,
    ) -> ass_editor::Result<ExtensionResult> {
        self.visit(id, c);
        if args.get("fail").is_some() { Err(fail()) } else { Ok(ExtensionResult::success_with_message(format!("{}{}", id, self.who))) }
    }
    fn commands(&self) -> Vec<ExtensionCommand> {
        self.cmds.iter().map(|c| ExtensionCommand::new(c.clone(), c.clone(), String::new())).collect()
    }
}
pub struct Exts {
    m: ExtensionManager,
    log: Log,
    who: usize,
}
impl Exts {
    pub fn new() -> Self {
        Self { m: ExtensionManager::new(), log: Log::default(), who: 0 }
    }
}
fn state(x: ExtensionState) -> String {
    format!("{x:?}")
}
impl Machine for Exts {
    fn step(&mut self, op: &Value) -> Value {
        let name = op["name"].as_str().unwrap_or("").to_string();
        let mut val = json!([]);
        let mut base = self.m.clone();
        let mut doc = EditorDocument::from_content("t").unwrap();
        let res: Result<(), EditorError> = match s(op, "op") {
            "reset" => {
                *self = Self::new();
                Ok(())
            }
            "load" => {
                self.who += 1;
                let mut info = ExtensionInfo::new(name, "1".into(), String::new(), String::new());
                for d in list(op, "deps") {
                    info = info.with_dependency(d);
                }
                let e = Ext { who: self.who, info, cmds: list(op, "cmds"), init: op["init"].as_bool().unwrap(), down: op["down"].as_bool().unwrap(), log: self.log.clone() };
                self.m.load_extension(Box::new(e))
            }
            "init" => {
                let mut c = base.create_context(name.clone(), Some(&mut doc)).unwrap();
                self.m.initialize_extension(&name, c.as_mut())
            }
            "unload" => {
                let mut c = base.create_context(name.clone(), Some(&mut doc)).unwrap();
                self.m.unload_extension(&name, c.as_mut())
            }
            "run" => {
                let mut args = HashMap::new();
                if !op["ok"].as_bool().unwrap() {
                    args.insert("fail".to_string(), "1".to_string());
                }
                let mut c = base.create_context("caller".into(), Some(&mut doc)).unwrap();
                self.m.execute_command(&name, &args, c.as_mut()).map(|r| val = json!([r.message.unwrap_or_default()]))
            }
            "config" => {
                self.m.set_config(name, s(op, "v").into());
                Ok(())
            }
            "data" => {
                self.m.set_extension_data(name, "d".into(), s(op, "v").into());
                Ok(())
            }
            k => panic!("op {k}"),
        };
        let mut exts = self.m.list_extensions();
        exts.sort();
        let mut cmds = self.m.list_commands();
        cmds.sort();
        let states: Vec<String> = ["a", "b", "c"].iter().map(|x| self.m.get_extension_state(x).map(state).unwrap_or_default()).collect();
        let data: Vec<String> = ["a", "b", "c", "caller"].iter().map(|x| self.m.get_extension_data(x, "d").unwrap_or_default()).collect();
        json!({"res": res.err().map(|e| kind(&e)).unwrap_or_default(), "val": val, "exts": exts, "listed": cmds, "states": states, "data": data,
               "cfg": [self.m.get_config("k").unwrap_or_default(), self.m.get_config("q").unwrap_or_default()],
               "log": std::mem::take(&mut *self.log.lock().unwrap())})
    }
}
