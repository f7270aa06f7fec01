// Frames made of drawings.
use crate::frames::renderer;
use crate::run::{s, u, Machine};
use crate::small::{arr, time};
use ass_core::parser::Script;
use serde_json::{json, Value};

fn n(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("number {v}"))
}
fn list(v: &Value) -> String {
    arr(v).iter().map(|x| n(x).to_string()).collect::<Vec<_>>().join(",")
}
fn colour(v: &Value) -> String {
    let c: Vec<i64> = arr(v).iter().map(n).collect();
    format!("&H{:02X}{:02X}{:02X}&", c[2], c[1], c[0])
}
/// The tag of that name, from the event's fields.
pub fn tag(e: &Value, name: &str) -> String {
    match name {
        "p" => format!("\\p{}", u(e, "lvl")),
        "an" if n(&e["an"]) == 0 => String::new(),
        "an" => format!("\\an{}", n(&e["an"])),
        "at" => match s(e, "kind") {
            "none" => String::new(),
            k => format!("\\{k}({})", list(&e["p"])),
        },
        "c" if arr(&e["col"]).is_empty() => String::new(),
        "c" => format!("\\c{}", colour(&e["col"])),
        "al" => arr(&e["al"]).iter().zip(arr(&e["aln"])).map(|(v, k)| format!("\\{}&H{:02X}&", k.as_str().unwrap(), n(v))).collect(),
        "clip" if arr(&e["clip"]).is_empty() => String::new(),
        "clip" => format!("\\{}({})", if e["inv"] == json!(true) { "iclip" } else { "clip" }, list(&e["clip"])),
        "fad" if arr(&e["fad"]).is_empty() => String::new(),
        "fad" => format!("\\{}({})", if arr(&e["fad"]).len() == 2 { "fad" } else { "fade" }, list(&e["fad"])),
        o => panic!("tag {o}"),
    }
}
fn shape(e: &Value) -> String {
    let poly = |p: &Value| {
        let pts: Vec<String> = arr(p).iter().map(|v| format!("{} {}", n(&v[0]), n(&v[1]))).collect();
        format!("m {} l {}", pts[0], pts[1..].join(" "))
    };
    arr(&e["polys"]).iter().map(poly).collect::<Vec<_>>().join(" ")
}
fn text(e: &Value) -> String {
    let brk = u(e, "brk");
    let mut t = String::from("{");
    for (k, name) in arr(&e["tags"]).iter().enumerate() {
        if k == brk {
            t.push_str("}{");
        }
        t.push_str(&tag(e, name.as_str().unwrap()));
    }
    format!("{t}}}{}{}", shape(e), if e["end"] == json!(true) { "{\\p0}" } else { "" })
}
pub fn info(op: &Value) -> String {
    let mut t = String::from("[Script Info]\nTitle: t\n");
    if u(op, "px") > 0 {
        t.push_str(&format!("PlayResX: {}\nPlayResY: {}\n", u(op, "px"), u(op, "py")));
    }
    t
}
fn script(op: &Value) -> String {
    let mut t = info(op);
    t.push_str("\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n");
    for y in arr(&op["styles"]) {
        let c: Vec<i64> = arr(&y["rgb"]).iter().map(n).collect();
        t.push_str(&format!(
            "Style: {},Arial,20,&H{:02X}{:02X}{:02X}{:02X},&H000000FF,&H0000FF00,&H80FF0000,0,0,0,0,100,100,0,0,1,2,2,{},10,10,10,1\n",
            s(y, "name"), n(&y["alpha"]), c[2], c[1], c[0], n(&y["an"])
        ));
    }
    t.push_str("\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
    for e in arr(&op["evs"]) {
        t.push_str(&format!("Dialogue: {},{},{},{},,0,0,0,,{}\n", n(&e["ly"]), time(&e["s"]), time(&e["e"]), s(e, "st"), text(e)));
    }
    t
}
pub struct Paint;
impl Machine for Paint {
    fn step(&mut self, op: &Value) -> Value {
        if s(op, "op") == "reset" {
            return json!({});
        }
        let t = script(op);
        let script = Script::parse(&t).expect("script");
        let f = renderer(u(op, "w") as u32, u(op, "hh") as u32).render_frame(&script, u(op, "t") as u32).expect("frame");
        json!({"img": f.pixels().chunks_exact(4).map(|p| json!(p)).collect::<Vec<_>>()})
    }
}
