// The text of an event, cut into runs that each carry what they are drawn with.
use crate::run::{bytes, s, u, Machine};
use crate::small::{arr, time};
use ass_core::parser::{Script, Section};
use ass_renderer::pipeline::{IntermediateLayer, Pipeline, SoftwarePipeline, TextData, TextEffect};
use ass_renderer::backends::software::SoftwareBackend;
use ass_renderer::backends::RenderBackend;
use ass_renderer::pipeline::shaping::shape_text_with_style;
use ass_renderer::renderer::RenderContext;
use serde_json::{json, Value};
use std::collections::HashMap;

fn n(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("number {v}"))
}
/// A number given in thousandths.
fn num(v: i64) -> String {
    let sign = if v < 0 { "-" } else { "" };
    let t = format!("{sign}{}.{:03}", v.abs() / 1000, v.abs() % 1000);
    t.trim_end_matches('0').trim_end_matches('.').to_string()
}
fn bgr(v: &Value) -> String {
    let c: Vec<i64> = arr(v).iter().map(n).collect();
    format!("{:02X}{:02X}{:02X}", c[2], c[1], c[0])
}
/// The arguments of a tag as they are written.
fn args(g: &Value) -> String {
    let v = &g["v"];
    match s(g, "n") {
        "t" => {
            let ts: Vec<String> = arr(v).iter().map(|x| n(x).to_string()).collect();
            let acc = u(g, "acc");
            let mut a = ts.join(",");
            if acc != 1 {
                a = if a.is_empty() { acc.to_string() } else { format!("{a},{acc}") };
            }
            let sub: String = arr(&g["sub"]).iter().map(tag).collect();
            format!("({a}{}{sub})", if a.is_empty() { "" } else { "," })
        }
        "fn" | "r" => s(g, "x").to_string(),
        _ if arr(v).is_empty() => String::new(),
        "1c" | "2c" | "3c" | "4c" => format!("&H{}&", bgr(v)),
        "1a" | "2a" | "3a" | "4a" | "alpha" => format!("&H{:02X}&", n(&v[0])),
        "k" | "kf" | "ko" | "K" if n(&v[0]) == 1_000_000_000 => u32::MAX.to_string(),
        "b" | "i" | "u" | "s" | "p" | "k" | "kf" | "ko" | "K" => n(&v[0]).to_string(),
        "an" | "a" | "q" => n(&v[0]).to_string(),
        "pos" | "move" | "org" | "clip" | "iclip" | "fad" | "fade" => {
            format!("({})", arr(v).iter().map(|x| n(x).to_string()).collect::<Vec<_>>().join(","))
        }
        _ => num(n(&v[0])),
    }
}
fn tag(g: &Value) -> String {
    match s(g, "n") {
        "junk" => bytes(&g["x"]),
        _ => format!("\\{}{}", s(g, "as"), args(g)),
    }
}
fn text(ps: &Value) -> String {
    arr(ps)
        .iter()
        .map(|p| match s(p, "p") {
            "tags" => format!("{{{}}}", arr(&p["ts"]).iter().map(tag).collect::<String>()),
            "break" => "\\N".to_string(),
            "hard" => "\\h".to_string(),
            "soft" => "\\n".to_string(),
            _ => bytes(&p["x"]),
        })
        .collect()
}
fn list(v: &Value) -> String {
    arr(v).iter().map(|x| n(x).to_string()).collect::<Vec<_>>().join(",")
}
fn script(op: &Value) -> String {
    let wrap = if op["ws"].is_null() { 2 } else { u(op, "ws") };
    let mut t = format!("[Script Info]\nTitle: t\n");
    if wrap < 9 {
        t.push_str(&format!("WrapStyle: {wrap}\n"));
    }
    if u(op, "px") > 0 {
        t.push_str(&format!("PlayResX: {}\nPlayResY: {}\n", u(op, "px"), u(op, "py")));
    }
    if !s(op, "sbs").is_empty() {
        t.push_str(&format!("ScaledBorderAndShadow: {}\n", s(op, "sbs")));
    }
    t.push_str("\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n");
    for y in arr(&op["styles"]) {
        let col = |k: usize| format!("&H{:02X}{}", n(&y["al"][k]), bgr(&y["col"][k]));
        let on = |k: &str| if y[k] == json!(1) { "-1" } else { "0" };
        let v = |k: &str| num(n(&y[k]));
        t.push_str(&format!(
            "Style: {},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},1\n",
            s(y, "name"), s(y, "fname"), v("fs"), col(0), col(1), col(2), col(3), on("b"), on("i"), on("u"), on("s"),
            v("fscx"), v("fscy"), v("fsp"), v("fr"), u(y, "bs"), v("bord"), v("shad"),
            if y["mg"].is_null() { "2,10,10,10".to_string() } else { format!("{},{}", n(&y["num"]), list(&y["mg"])) }
        ));
    }
    t.push_str("\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
    let margin = |x: &Value| if n(x) < 0 { String::new() } else { format!("{:01$}", n(x), u(op, "pad")) };
    let mg = if op["emg"].is_null() { "0,0,0".to_string() } else { arr(&op["emg"]).iter().map(margin).collect::<Vec<_>>().join(",") };
    t.push_str(&format!("Dialogue: 0,{},{},{},,{mg},,{}\n", time(&op["from"]), time(&op["to"]), s(op, "st"), text(&op["text"])));
    t
}
fn th(v: f32) -> i64 {
    (f64::from(v) * 1000.0).round() as i64
}
fn run(t: &TextData) -> Value {
    let mut o = json!({
        "text": t.text.as_bytes(), "font": t.font_family, "size": th(t.font_size), "col": t.color, "fsp": th(t.spacing),
        "on": [0, 0, 0, 0], "bord": [0, 0], "bcol": [], "box": false, "shad": [0, 0], "scol": [], "blur": 0, "be": 0,
        "rot": [0, 0, 0], "org": [], "shear": [0, 0], "scale": [100000, 100000], "clip": [], "inv": false, "kar": [], "kcol": []
    });
    for e in &t.effects {
        match e {
            TextEffect::Bold => o["on"][0] = json!(1),
            TextEffect::Italic => o["on"][1] = json!(1),
            TextEffect::Underline => o["on"][2] = json!(1),
            TextEffect::Strikethrough => o["on"][3] = json!(1),
            TextEffect::Outline { color, width_x, width_y } => {
                o["bord"] = json!([th(*width_x), th(*width_y)]);
                o["bcol"] = json!(color);
            }
            TextEffect::OpaqueBox { color, padding_x, padding_y } => {
                o["bord"] = json!([th(*padding_x), th(*padding_y)]);
                o["bcol"] = json!(color);
                o["box"] = json!(true);
            }
            TextEffect::Shadow { color, x_offset, y_offset } => {
                o["shad"] = json!([th(*x_offset), th(*y_offset)]);
                o["scol"] = json!(color);
            }
            TextEffect::Blur { radius } => o["blur"] = json!(th(*radius)),
            TextEffect::EdgeBlur { radius } => o["be"] = json!(th(*radius)),
            TextEffect::Karaoke { progress, style, secondary } => {
                o["kar"] = json!([th(*progress), style]);
                o["kcol"] = json!(secondary);
            }
            TextEffect::Rotation { x, y, z, origin } => {
                o["rot"] = json!([th(*x), th(*y), th(*z)]);
                if let Some((a, b)) = origin {
                    o["org"] = json!([th(*a), th(*b)]);
                }
            }
            TextEffect::Shear { x, y } => o["shear"] = json!([th(*x), th(*y)]),
            TextEffect::Scale { x, y } => o["scale"] = json!([th(*x), th(*y)]),
            TextEffect::Clip { x1, y1, x2, y2, inverse } => {
                o["clip"] = json!([th(*x1), th(*y1), th(*x2), th(*y2)]);
                o["inv"] = json!(inverse);
            }
        }
    }
    o
}
/// Where a run is and how much room it takes, by the shapes of its glyphs.
fn place(t: &TextData, fonts: &fontdb::Database) -> Value {
    let on = |want: fn(&TextEffect) -> bool| t.effects.iter().any(want);
    let (bold, italic) = (on(|e| matches!(e, TextEffect::Bold)), on(|e| matches!(e, TextEffect::Italic)));
    let (mut sx, mut sy) = (100.0, 100.0);
    for e in &t.effects {
        if let TextEffect::Scale { x, y } = e {
            (sx, sy) = (f64::from(*x), f64::from(*y));
        }
    }
    let g = shape_text_with_style(&t.text, &t.font_family, t.font_size, bold, italic, fonts).expect("shapes");
    let gap = f64::from(t.spacing) * sx / 100.0;
    let across: f64 = g.glyphs.iter().map(|x| f64::from(x.x_advance)).sum();
    let wide = across * sx / sy + gap * g.glyphs.len().saturating_sub(1) as f64;
    let m = |v: f64| (v * 1000.0).round() as i64;
    json!({"text": t.text.as_bytes(), "x": th(t.x), "y": th(t.y), "w": m(wide), "gap": m(gap), "asc": th(g.ascent), "desc": th(-g.descent), "size": th(t.font_size)})
}
/// How wide what is inked of each span of the words of each line would be, in the style of the event.
fn spans(op: &Value, fonts: &fontdb::Database) -> Value {
    let y = &op["styles"][0];
    let ratio = |frame: &str, res: &str| if u(op, res) == 0 { 1.0 } else { u(op, frame) as f64 / u(op, res) as f64 };
    let part = |k: &str| n(&y[k]) as f64;
    let size = part("fs") / 1000.0 * ratio("hh", "py") * part("fscy") / 100_000.0;
    let gap = part("fsp") / 1000.0 * ratio("w", "px") * part("fscx") / 100_000.0;
    let on = |k: &str| y[k] == json!(1);
    let wide = |x: &str| {
        let g = shape_text_with_style(x, s(y, "fname"), size as f32, on("b"), on("i"), fonts).expect("shapes");
        let ink = f64::from(g.ink_max - g.ink_min) * part("fscx") / part("fscy");
        ((ink + gap * g.glyphs.len().saturating_sub(1) as f64) * 1000.0).round() as i64
    };
    let lines: Vec<Value> = arr(&op["lines"])
        .iter()
        .map(|l| {
            let ws: Vec<String> = arr(l).iter().map(|b| bytes(b)).collect();
            (0..ws.len()).map(|i| (i..ws.len()).map(|j| wide(&ws[i..=j].join(" "))).collect::<Vec<_>>()).collect::<Vec<_>>().into()
        })
        .map(|x: Vec<Vec<i64>>| json!(x))
        .collect();
    json!(lines)
}
/// The least box around what a frame shows: left, top, right, bottom.
fn inked(px: &[u8], w: usize) -> Vec<usize> {
    let at: Vec<(usize, usize)> = px.chunks_exact(4).enumerate().filter(|(_, p)| p[3] > 24).map(|(i, _)| (i % w, i / w)).collect();
    if at.is_empty() {
        return vec![];
    }
    let (xs, ys) = (at.iter().map(|p| p.0), at.iter().map(|p| p.1));
    vec![xs.clone().min().unwrap(), ys.clone().min().unwrap(), xs.max().unwrap() + 1, ys.max().unwrap() + 1]
}
pub struct Runs {
    pipes: HashMap<(u64, u64), SoftwarePipeline>,
    fonts: fontdb::Database,
}
impl Default for Runs {
    fn default() -> Self {
        let mut fonts = fontdb::Database::new();
        fonts.load_system_fonts();
        Self { pipes: HashMap::new(), fonts }
    }
}
impl Machine for Runs {
    fn step(&mut self, op: &Value) -> Value {
        if s(op, "op") == "reset" {
            return json!({});
        }
        let (w, h) = (u(op, "w") as u64, u(op, "hh") as u64);
        let pipe = self.pipes.entry((w, h)).or_insert_with(|| {
            let mut p = SoftwarePipeline::with_dimensions(w as f32, h as f32);
            p.set_dpi_scale(1.0);
            p
        });
        let t = script(op);
        let script = Script::parse(&t).expect("script");
        let events: Vec<_> = script.sections().iter().filter_map(|x| match x {
            Section::Events(e) => Some(e),
            _ => None,
        }).flatten().collect();
        pipe.prepare_script(&script, None).expect("prepared");
        let layers = pipe.process_events(&events, u(op, "t") as u32, &RenderContext::new(w as u32, h as u32)).expect("layers");
        if s(op, "op") == "wrap" {
            let mut rows: Vec<(i64, Vec<u8>)> = vec![];
            for l in &layers {
                if let IntermediateLayer::Text(t) = l {
                    let y = th(t.y);
                    match rows.last_mut() {
                        Some((at, x)) if *at == y => x.extend(t.text.as_bytes()),
                        _ => rows.push((y, t.text.as_bytes().to_vec())),
                    }
                }
            }
            let rows: Vec<Value> = rows.into_iter().map(|(y, x)| json!({"y": y, "x": x})).collect();
            return json!({"rows": rows, "span": spans(op, &self.fonts), "src": t.lines().last().unwrap_or("")});
        }
        if s(op, "op") == "place" {
            let (mut runs, mut shapes) = (vec![], vec![]);
            for l in &layers {
                match l {
                    IntermediateLayer::Text(t) => runs.push(place(t, &self.fonts)),
                    IntermediateLayer::Vector(v) => {
                        if let Some(b) = v.path.as_ref().map(tiny_skia::Path::bounds) {
                            shapes.push(json!([th(b.left()), th(b.top()), th(b.right()), th(b.bottom())]));
                        }
                    }
                    IntermediateLayer::Raster(_) => {}
                }
            }
            let mut ink = vec![];
            if op["ink"] == json!(true) {
                let ctx = RenderContext::new(w as u32, h as u32);
                let px = SoftwareBackend::new(&ctx).expect("backend").composite_layers(&layers, &ctx).expect("pixels");
                ink = inked(&px, w as usize);
            }
            return json!({"runs": runs, "shapes": shapes, "box": ink, "src": t.lines().last().unwrap_or("")});
        }
        let (mut runs, mut vec) = (vec![], 0);
        for l in &layers {
            match l {
                IntermediateLayer::Text(t) => runs.push(run(t)),
                IntermediateLayer::Vector(_) => vec += 1,
                IntermediateLayer::Raster(_) => {}
            }
        }
        json!({"runs": runs, "vec": vec, "src": t.lines().last().unwrap_or("")})
    }
}
