// Editing sessions over the incremental reader.
use crate::parse::{data, issues, section, sp, spans};
use crate::run::{bytes, jb, u, Machine};
use ass_core::parser::ast::{Section, SectionType};
use ass_core::parser::incremental::{adjust_range_for_change, calculate_line_number, calculate_line_range, TextChange};
use ass_core::parser::{calculate_delta, IssueSeverity, ParseIssue, Script};
use serde_json::{json, Value};

#[derive(Default)]
pub struct Incr {
    text: &'static str,
    cur: Option<Script<'static>>,
}

fn iss(v: &[ParseIssue]) -> Value {
    json!(v.iter().filter(|i| i.severity != IssueSeverity::Info)
        .map(|i| json!({"sev": format!("{:?}", i.severity), "line": i.line})).collect::<Vec<_>>())
}
fn kind(t: &SectionType) -> &'static str {
    match t {
        SectionType::ScriptInfo => "info",
        SectionType::Styles => "styles",
        SectionType::Events => "events",
        SectionType::Fonts => "fonts",
        SectionType::Graphics => "graphics",
    }
}
fn report(s: &Script, out: &mut Value) {
    out["doc"] = data(s);
    out["spans"] = json!(s.sections().iter().map(spans).collect::<Vec<_>>());
    out["info"] = json!(s.sections().iter().map(|x| match x {
        Section::ScriptInfo(i) => sp(&i.span), _ => json!([]) }).collect::<Vec<_>>());
    out["iss"] = issues(s);
}

impl Machine for Incr {
    fn step(&mut self, op: &Value) -> Value {
        let mut out = json!({});
        if op["op"] == "reset" {
            self.text = Box::leak(bytes(&op["t"]).into_boxed_str());
            let s = Script::parse(self.text).expect("parse");
            report(&s, &mut out);
            self.cur = Some(s);
            return out;
        }
        let old = self.cur.take().expect("script");
        let (st, en, n) = (u(op, "s"), u(op, "e"), bytes(&op["n"]));
        let mut src = String::from(&self.text[..st]);
        src.push_str(&n);
        src.push_str(&self.text[en..]);
        out["src"] = jb(&ass_core::parser::streaming::build_modified_source(self.text, st..en, &n));
        let src: &'static str = Box::leak(src.into_boxed_str());
        let lr = calculate_line_range(self.text, st..en);
        out["lrange"] = json!([lr.start, lr.end]);
        out["lnum"] = json!(calculate_line_number(self.text, st));
        let change = TextChange { range: st..en, new_text: n.clone(), line_range: lr };
        out["hit"] = json!(old.affected_sections(&change).iter().map(kind).collect::<Vec<_>>());
        let mut ranges = vec![];
        for x in old.sections().iter().filter_map(|x| x.span()) {
            ranges.push((x.start, x.end));
        }
        ranges.extend([(0, self.text.len()), (st, en), (0, st), (en, self.text.len()), (st / 2, en)]);
        out["ranges"] = json!(ranges);
        out["adjusted"] = json!(ranges.iter().map(|&(a, b)| {
            let r = adjust_range_for_change(a..b, &change);
            (r.start, r.end)
        }).collect::<Vec<_>>());
        let new = old.parse_incremental(src, &change).expect("incremental");
        let d = calculate_delta(&old, &new);
        out["added"] = json!(d.added.iter().map(section).collect::<Vec<_>>());
        out["modified"] = json!(d.modified.iter().map(|(i, x)| json!([i + 1, section(x)])).collect::<Vec<_>>());
        out["removed"] = json!(d.removed.iter().map(|i| i + 1).collect::<Vec<_>>());
        out["dissues"] = iss(&d.new_issues);
        out["alliss"] = json!(d.new_issues.len());
        out["dempty"] = json!(d.is_empty());
        let p = old.parse_partial(st..en, &n).expect("partial");
        let same = |a: &str, b: Option<&Section>| b.is_some_and(|x| format!("{x:?}") == a);
        out["padded"] = json!(p.added.iter().enumerate().map(|(i, a)| same(a, d.added.get(i))).collect::<Vec<_>>());
        out["pmodified"] = json!(p.modified.iter().enumerate()
            .map(|(i, (k, a))| json!([k + 1, same(a, d.modified.get(i).map(|x| &x.1))])).collect::<Vec<_>>());
        out["premoved"] = json!(p.removed.iter().map(|i| i + 1).collect::<Vec<_>>());
        out["pissues"] = iss(&p.new_issues);
        report(&new, &mut out);
        self.text = src;
        self.cur = Some(new);
        out
    }
}
