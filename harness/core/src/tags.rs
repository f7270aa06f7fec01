// Text analysis, override blocks, and the extension registry with its built-in handlers.
use crate::run::{bytes, jb, s, u, Machine};
use ass_core::analysis::events::tags::{
    parse_override_block, parse_override_block_with_registry, DiagnosticKind, OverrideTag, TagDiagnostic,
};
use ass_core::analysis::events::line_breaks::{LineBreakType, TextWithLineBreaks};
use ass_core::analysis::events::text_analysis::TextAnalysis;
use ass_core::plugin::{ExtensionRegistry, TagHandler, TagResult};
use serde_json::{json, Value};

pub struct Mock(pub &'static str, pub TagResult);
impl TagHandler for Mock {
    fn name(&self) -> &'static str {
        self.0
    }
    fn process(&self, _args: &str) -> TagResult {
        self.1.clone()
    }
}
pub fn outcome(v: &Value) -> TagResult {
    match v.as_str().unwrap() {
        "processed" => TagResult::Processed,
        "ignored" => TagResult::Ignored,
        _ => TagResult::Failed("no".into()),
    }
}
fn tags(ts: &[OverrideTag]) -> Value {
    ts.iter().map(|t| json!([jb(t.name()), jb(t.args()), t.complexity(), t.position()])).collect()
}
fn diags(ds: &[TagDiagnostic]) -> Value {
    let kind = |k: &DiagnosticKind| match k {
        DiagnosticKind::EmptyOverride => "EmptyOverride",
        DiagnosticKind::MalformedTag => "MalformedTag",
        _ => "other",
    };
    ds.iter().map(|d| json!([d.offset, kind(&d.kind), jb(d.span)])).collect()
}
fn shape(a: ass_core::Result<TextAnalysis>) -> Value {
    match a {
        Err(_) => json!({"ok": false}),
        Ok(a) => json!({"ok": true, "plain": jb(a.plain_text()), "chars": a.char_count(), "lines": a.line_count(),
            "bidi": a.has_bidi_text(), "complex": a.has_complex_unicode(),
            "tags": tags(a.override_tags()), "diag": diags(a.diagnostics())}),
    }
}

pub struct Tags;
impl Machine for Tags {
    fn step(&mut self, op: &Value) -> Value {
        let t = bytes(&op["s"]);
        if s(op, "k") == "breaks" {
            let b = TextWithLineBreaks::from_text(&t, op["draw"].as_bool().unwrap());
            let brk: Vec<Value> = b.line_breaks.iter().map(|x| {
                let k = if x.break_type == LineBreakType::Hard { "hard" } else { "soft" };
                assert!(b.get_break_type_at(x.position) == Some(x.break_type));
                json!([x.position, k])
            }).collect();
            return json!({"o": [jb(&b.text), brk, b.nbsp_positions]});
        }
        let mut reg = ExtensionRegistry::new();
        for h in op["hs"].as_array().unwrap() {
            let name: &'static str = Box::leak(bytes(&h[0]).into_boxed_str());
            reg.register_tag_handler(Box::new(Mock(name, outcome(&h[1])))).unwrap();
        }
        if s(op, "k") == "text" {
            return json!({"a": shape(TextAnalysis::analyze(&t)), "r": shape(TextAnalysis::analyze_with_registry(&t, Some(&reg))),
                          "n": shape(TextAnalysis::analyze_with_registry(&t, None))});
        }
        let base = u(op, "base");
        let block = |mode: usize| {
            let (mut ts, mut ds) = (Vec::new(), Vec::new());
            match mode {
                0 => parse_override_block(&t, base, &mut ts, &mut ds),
                1 => parse_override_block_with_registry(&t, base, &mut ts, &mut ds, Some(&reg)),
                _ => parse_override_block_with_registry(&t, base, &mut ts, &mut ds, None),
            }
            json!([tags(&ts), diags(&ds)])
        };
        json!({"a": block(0), "r": block(1), "n": block(2)})
    }
}

fn builtin() -> Vec<Box<dyn TagHandler>> {
    use ass_core::plugin::tags as t;
    let mut v = t::advanced::create_advanced_handlers();
    v.extend(t::alignment::create_alignment_handlers());
    v.extend(t::animation::create_animation_handlers());
    v.extend(t::clipping::create_clipping_handlers());
    v.extend(t::color::create_color_handlers());
    v.extend(t::font::create_font_handlers());
    v.extend(t::formatting::create_formatting_handlers());
    v.extend(t::karaoke::create_karaoke_handlers());
    v.extend(t::misc::create_misc_handlers());
    v.extend(t::position::create_position_handlers());
    v.extend(t::special::create_special_handlers());
    v.extend(t::transform::create_transform_handlers());
    v
}

/// The built-in tag handlers, one by one and together.
pub struct Args {
    all: Vec<Box<dyn TagHandler>>,
    reg: ExtensionRegistry,
}
impl Args {
    pub fn new() -> Self {
        let mut reg = ExtensionRegistry::new();
        for h in builtin() {
            reg.register_tag_handler(h).unwrap();
        }
        Args { all: builtin(), reg }
    }
}
impl Machine for Args {
    fn step(&mut self, op: &Value) -> Value {
        match s(op, "k") {
            "names" => json!({"names": self.all.iter().map(|h| jb(h.name())).collect::<Vec<_>>()}),
            "args" => {
                let (n, a) = (s(op, "name"), bytes(&op["s"]));
                let h = self.all.iter().find(|h| h.name() == n).unwrap_or_else(|| panic!("no handler {n}"));
                let r = h.process(&a);
                assert!(self.reg.process_tag(n, &a) == Some(r.clone()));
                json!({"ok": r == TagResult::Processed, "valid": h.validate(&a)})
            }
            _ => {
                let (mut ts, mut ds) = (Vec::new(), Vec::new());
                let t = bytes(&op["s"]);
                parse_override_block_with_registry(&t, 0, &mut ts, &mut ds, Some(&self.reg));
                json!({"o": [tags(&ts), diags(&ds)]})
            }
        }
    }
}
