// Style resolution, line analysis and lint of parsed scripts.
use crate::run::{bytes, jb, s, Machine};
use ass_core::analysis::events::dialogue_info::{DialogueInfo, TimingRelation};
use ass_core::analysis::events::scoring::PerformanceImpact;
use ass_core::analysis::events::utils as ev;
use ass_core::analysis::linting::{lint_script, BuiltinRules, IssueCategory, IssueSeverity, LintConfig, LintIssue};
use ass_core::analysis::styles::analyzer::{AnalysisOptions, StyleAnalysisConfig, StyleAnalyzer};
use ass_core::analysis::styles::resolved_style::ResolvedStyle;
use ass_core::analysis::styles::validation::{ConflictType, StyleValidationIssue, ValidationSeverity};
use ass_core::analysis::ScriptAnalysis;
use ass_core::parser::{Script, Section};
use serde_json::{json, Value};

pub struct Analysis;

// Counts of 1/4096; a value that is not a whole count is reported as text.
fn fx(v: f32) -> Value {
    let x = f64::from(v) * 4096.0;
    if x.fract() == 0.0 && x.abs() < 2e9 { json!(x as i64) } else { json!(format!("{v}")) }
}
fn cs(v: u32) -> Value {
    json!([v / 360_000, v % 360_000])
}
fn style(r: &ResolvedStyle) -> Value {
    let f = |b: bool| u8::from(b);
    json!([jb(r.name), jb(r.font_name()), fx(r.font_size()), r.primary_color(), r.secondary_color(), r.outline_color(),
        [f(r.is_bold()), f(r.is_italic()), f(r.is_underline()), f(r.is_strike_out())], fx(r.spacing()), fx(r.angle()),
        fx(r.outline()), fx(r.shadow()), r.margin_l(), r.margin_r(), r.margin_t(), r.margin_b(), r.complexity_score()])
}
fn issues(v: &[StyleValidationIssue]) -> Value {
    v.iter().map(|i| json!([i.field, match i.severity {
        ValidationSeverity::Info => "info", ValidationSeverity::Warning => "warning", _ => "error" }])).collect()
}
fn sev(s: IssueSeverity) -> &'static str {
    match s {
        IssueSeverity::Info => "info", IssueSeverity::Hint => "hint", IssueSeverity::Warning => "warning",
        IssueSeverity::Error => "error", IssueSeverity::Critical => "critical",
    }
}
fn lint(v: &[LintIssue]) -> Value {
    v.iter().map(|i| {
        let m = if i.message().starts_with("Fast reading speed") { "Fast reading speed" } else { i.message() };
        json!([i.rule_id(), sev(i.severity()), jb(m)])
    }).collect()
}
fn ids(v: &Value) -> Vec<&'static str> {
    let all = BuiltinRules::all_rule_ids();
    v.as_array().unwrap().iter().map(|x| *all.iter().find(|a| **a == x.as_str().unwrap()).unwrap()).collect()
}

fn styles(script: &Script) -> Value {
    let a = StyleAnalyzer::new(script);
    let st = StyleAnalyzer::new_with_config(script, StyleAnalysisConfig {
        options: AnalysisOptions::VALIDATION | AnalysisOptions::PERFORMANCE | AnalysisOptions::STRICT_VALIDATION, ..Default::default() });
    let conf: Vec<Value> = a.conflicts().iter().map(|c| json!([match c.conflict_type {
        ConflictType::DuplicateName => "duplicate", ConflictType::CircularInheritance => "circular",
        ConflictType::MissingReference => "missing", ConflictType::PropertyConflict => "property" },
        c.styles.iter().map(|n| jb(n)).collect::<Vec<_>>()])).collect();
    let inh: Vec<Value> = a.inheritance_info().iter().map(|(n, x)| json!([jb(n), x.parents.iter().map(|p| jb(p)).collect::<Vec<_>>()])).collect();
    let sa = ScriptAnalysis::analyze(script).unwrap();
    for (n, r) in a.resolved_styles() {
        assert!(a.resolve_style(n) == Some(r) && sa.resolve_style(n) == Some(r) && r.name == *n);
    }
    json!({"styles": a.resolved_styles().values().map(style).collect::<Vec<_>>(), "again": sa.resolved_styles().iter().map(style).collect::<Vec<_>>(),
        "conf": conf, "inh": inh, "iss": issues(&a.validate_styles()), "strict": issues(&st.validate_styles())})
}

fn lines(script: &Script, op: &Value) -> Value {
    let sa = ScriptAnalysis::analyze(script).unwrap();
    let evs = script.sections().iter().find_map(|x| if let Section::Events(e) = x { Some(e) } else { None });
    let no = |d: &DialogueInfo| evs.unwrap().iter().position(|e| std::ptr::eq(e, d.event())).unwrap() + 1;
    let ds = sa.dialogue_info();
    let infos: Vec<Value> = ds.iter().map(|d| {
        let ms = d.duration_ms();
        assert!(u64::from(ms) == (u64::from(d.duration_cs()) * 10).min(u64::from(u32::MAX)));
        json!([no(d), cs(d.start_time_cs()), cs(d.end_time_cs()), cs(d.duration_cs()), d.animation_score(), d.complexity_score(),
        match d.performance_impact() { PerformanceImpact::Minimal => "Minimal", PerformanceImpact::Low => "Low", PerformanceImpact::Medium => "Medium",
            PerformanceImpact::High => "High", PerformanceImpact::Critical => "Critical" },
        d.text_analysis().char_count(), d.override_count()])
    }).collect();
    let mut rel = Vec::new();
    for (i, a) in ds.iter().take(5).enumerate() {
        for (j, b) in ds.iter().take(5).enumerate() {
            rel.push(json!([i + 1, j + 1, match a.timing_relation(b) { TimingRelation::NoOverlap => "NoOverlap", TimingRelation::PartialOverlap => "PartialOverlap",
                TimingRelation::FullOverlap => "FullOverlap", TimingRelation::Identical => "Identical" }]));
        }
    }
    let mut sorted = ds.to_vec();
    ev::sort_events_by_time(&mut sorted);
    let over = ev::find_overlapping_dialogue_events(ds);
    assert!(over.len() == ev::count_overlapping_dialogue_events(ds));
    let found: Vec<Value> = op["qs"].as_array().unwrap().iter().map(|q| {
        let t = |v: &Value| (v[0].as_u64().unwrap() * 360_000 + v[1].as_u64().unwrap()) as u32;
        ev::find_events_in_range(ds, t(&q[0]), t(&q[1])).iter().map(|i| json!(i + 1)).collect()
    }).collect();
    let p = sa.performance_summary();
    let opt = |v: Option<u32>| v.map_or(json!([]), cs);
    json!({"infos": infos, "rel": rel, "over": over.iter().map(|(a, b)| json!([a.min(b) + 1, a.max(b) + 1])).collect::<Vec<_>>(),
        "sorted": sorted.iter().map(no).collect::<Vec<_>>(), "found": found,
        "span": opt(ev::calculate_total_duration(ds)), "avg": opt(ev::calculate_average_duration(ds)),
        "sum": {"events": p.total_events, "overlaps": p.overlapping_events, "anims": p.complex_animations, "fonts": p.large_fonts,
            "score": p.performance_score, "slow": p.has_performance_issues(), "advice": match p.recommendation() { None => "none",
                Some(x) if x.contains("overlapping") => "overlaps", Some(x) if x.contains("animations") => "animations",
                Some(x) if x.contains("font") => "fonts", Some(_) => "size" }}})
}

fn lints(script: &Script, op: &Value) -> Value {
    let all = lint_script(script, &LintConfig::default()).unwrap();
    let sa = ScriptAnalysis::analyze(script).unwrap();
    let res: Vec<Value> = op["cfgs"].as_array().unwrap().iter().map(|c| {
        let mut k = LintConfig::default().with_max_issues(c["max"].as_u64().unwrap() as usize).with_min_severity(match s(c, "min") {
            "info" => IssueSeverity::Info, "hint" => IssueSeverity::Hint, "warning" => IssueSeverity::Warning,
            "error" => IssueSeverity::Error, _ => IssueSeverity::Critical });
        k.enabled_rules = ids(&c["en"]);
        k.disabled_rules = ids(&c["dis"]);
        lint(&lint_script(script, &k).unwrap())
    }).collect();
    let cats = [("timing", IssueCategory::Timing), ("styling", IssueCategory::Styling), ("content", IssueCategory::Content),
        ("performance", IssueCategory::Performance), ("compliance", IssueCategory::Compliance),
        ("accessibility", IssueCategory::Accessibility), ("encoding", IssueCategory::Encoding)];
    let bycat: Vec<Value> = cats.iter().map(|(n, c)| {
        let v: Vec<LintIssue> = BuiltinRules::rules_for_category(*c).iter().flat_map(|r| r.check_script(&sa)).collect();
        json!([n, lint(&v)])
    }).collect();
    let byid: Vec<Value> = ["timing-overlap", "negative-duration", "invalid-color", "missing-style", "invalid-tag", "performance", "encoding", "accessibility"]
        .iter().map(|i| lint(&BuiltinRules::rule_by_id(i).unwrap().check_script(&sa))).collect();
    let name = |c: IssueCategory| cats.iter().find(|(_, k)| *k == c).unwrap().0;
    json!({"all": lint(&all), "again": lint(sa.lint_issues()), "crit": sa.has_critical_issues(), "res": res, "bycat": bycat, "byid": byid,
        "cats": all.iter().map(|i| name(i.category())).collect::<Vec<_>>()})
}

impl Machine for Analysis {
    fn step(&mut self, op: &Value) -> Value {
        let t = bytes(&op["t"]);
        let script = Script::parse(&t).unwrap();
        match s(op, "k") {
            "styles" => styles(&script),
            "lines" => lines(&script, op),
            _ => lints(&script, op),
        }
    }
}
