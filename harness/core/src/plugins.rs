// The extension registry: registration, dispatch, and reading a script with it.
use crate::parse;
use crate::run::{bytes, jb, s, Machine};
use ass_core::parser::{IssueSeverity, Script};
use ass_core::plugin::{
    create_aegisub_processors, ExtensionRegistry, PluginError, SectionProcessor, SectionResult, TagHandler, TagResult,
};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

type Log = Arc<Mutex<Vec<Value>>>;
/// Reports what it was given and answers as told.
struct Probe {
    name: &'static str,
    who: u64,
    answer: String,
    log: Log,
}
fn why(x: Value) -> String {
    x.to_string()
}
impl TagHandler for Probe {
    fn name(&self) -> &'static str {
        self.name
    }
    fn process(&self, args: &str) -> TagResult {
        self.log.lock().unwrap().push(json!(["tag", self.who, jb(args)]));
        match self.answer.as_str() {
            "processed" => TagResult::Processed,
            "ignored" => TagResult::Ignored,
            _ => TagResult::Failed(why(json!(self.who))),
        }
    }
}
impl SectionProcessor for Probe {
    fn name(&self) -> &'static str {
        self.name
    }
    fn process(&self, header: &str, lines: &[&str]) -> SectionResult {
        self.log.lock().unwrap().push(json!(["section", self.who, jb(header), lines.iter().map(|l| jb(l)).collect::<Vec<_>>()]));
        match self.answer.as_str() {
            "processed" => SectionResult::Processed,
            "ignored" => SectionResult::Ignored,
            _ => SectionResult::Failed(why(json!(self.who))),
        }
    }
}
fn tag_result(r: Option<TagResult>) -> Value {
    match r {
        None => json!("none"),
        Some(TagResult::Processed) => json!("processed"),
        Some(TagResult::Ignored) => json!("ignored"),
        Some(TagResult::Failed(m)) => json!(format!("failed {m}")),
    }
}
fn section_result(r: Option<SectionResult>) -> Value {
    match r {
        None => json!("none"),
        Some(SectionResult::Processed) => json!("processed"),
        Some(SectionResult::Ignored) => json!("ignored"),
        Some(SectionResult::Failed(m)) => json!(format!("failed {m}")),
    }
}
fn done(r: Result<(), PluginError>, name: &str) -> Value {
    match r {
        Ok(()) => json!("ok"),
        Err(PluginError::DuplicateHandler(n)) if n == name => json!("duplicate"),
        Err(e) => json!(format!("{e:?}")),
    }
}
fn issue_shape(sc: &Script, plugin_only: bool) -> Vec<Value> {
    sc.issues()
        .iter()
        .filter(|i| (i.message.starts_with("Section '") || i.message.starts_with("Plugin failed")) == plugin_only)
        .map(|i| {
            let sev = match i.severity {
                IssueSeverity::Info => "Info",
                IssueSeverity::Warning => "Warning",
                _ => "other",
            };
            if plugin_only { json!({"sev": sev, "line": i.line}) } else { json!([sev, i.line, i.message]) }
        })
        .collect()
}

#[derive(Default)]
pub struct Plugins {
    reg: ExtensionRegistry,
    log: Log,
}
impl Plugins {
    fn view(&self) -> Value {
        let names = |v: Vec<&str>| {
            let mut v: Vec<String> = v.into_iter().map(str::to_string).collect();
            v.sort();
            v.iter().map(|x| jb(x)).collect::<Vec<_>>()
        };
        json!({"tags": names(self.reg.tag_handler_names()), "secs": names(self.reg.section_processor_names()),
               "n": self.reg.extension_count()})
    }
}
impl Machine for Plugins {
    fn step(&mut self, op: &Value) -> Value {
        let name: &'static str = if op["name"].is_array() { Box::leak(bytes(&op["name"]).into_boxed_str()) } else { "" };
        let probe = || Probe { name, who: op["who"].as_u64().unwrap(), answer: s(op, "answer").to_string(), log: self.log.clone() };
        self.log.lock().unwrap().clear();
        let res = match s(op, "op") {
            "reset" => {
                self.reg = ExtensionRegistry::default();
                json!("ok")
            }
            "tag" => { let p = probe(); done(self.reg.register_tag_handler(Box::new(p)), name) }
            "section" => { let p = probe(); done(self.reg.register_section_processor(Box::new(p)), name) }
            "untag" => json!(self.reg.remove_tag_handler(name).map_or("none".to_string(), |h| {
                tag_result(Some(h.process("!"))).as_str().unwrap().to_string()
            })),
            "unsection" => json!(self.reg.remove_section_processor(name).map_or("none".to_string(), |h| {
                section_result(Some(h.process("!", &[]))).as_str().unwrap().to_string()
            })),
            "clear" => {
                self.reg.clear();
                json!("ok")
            }
            "has" => json!([self.reg.has_tag_handler(name), self.reg.has_section_processor(name)]),
            "run_tag" => tag_result(self.reg.process_tag(name, &bytes(&op["args"]))),
            "run_section" => {
                let ls: Vec<String> = op["lines"].as_array().unwrap().iter().map(bytes).collect();
                let ls: Vec<&str> = ls.iter().map(String::as_str).collect();
                section_result(self.reg.process_section(name, &bytes(&op["header"]), &ls))
            }
            "aegisub" => {
                let ls: Vec<String> = op["lines"].as_array().unwrap().iter().map(bytes).collect();
                let ls: Vec<&str> = ls.iter().map(String::as_str).collect();
                let h = bytes(&op["header"]);
                let all = create_aegisub_processors();
                let p = all.iter().find(|p| p.name() == name).unwrap();
                let r = match p.process(&h, &ls) {
                    SectionResult::Processed => "processed",
                    SectionResult::Ignored => "ignored",
                    _ => "failed",
                };
                json!([r, all.len(), p.validate(&h, &ls)])
            }
            "read" => {
                let t = bytes(&op["t"]);
                let plain = Script::parse(&t).unwrap();
                let with = Script::builder().with_registry(&self.reg).parse(&t).unwrap();
                let none = Script::builder().parse(&t).unwrap();
                json!({"same": parse::data(&plain) == parse::data(&with) && parse::data(&plain) == parse::data(&none),
                       "rest": issue_shape(&plain, false) == issue_shape(&with, false)
                            && issue_shape(&plain, false) == issue_shape(&none, false) && issue_shape(&plain, true).is_empty(),
                       "doc": parse::data(&with), "plug": issue_shape(&with, true)})
            }
            o => panic!("unknown op {o}"),
        };
        json!({"res": res, "view": self.view(), "log": self.log.lock().unwrap().clone()})
    }
}
