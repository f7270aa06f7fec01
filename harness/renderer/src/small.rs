// Small state machines of the renderer: event selection, collisions, caches, atlas, dirty regions.
use crate::run::{s, u, Machine};
use ass_core::parser::{Event, Script, Section};
use ass_renderer::cache::{DrawingCacheKey, RenderCache, TextCacheKey};
use ass_renderer::collision::{BoundingBox, CollisionDetector, CollisionResolver, PositionedEvent, SmartCollisionResolver};
use ass_renderer::pipeline::shaping::ShapedText;
use ass_renderer::renderer::EventSelector;
use ass_renderer::utils::{DirtyRegion, TextureAtlas};
use serde_json::{json, Value};

pub fn time(v: &Value) -> String {
    match v.as_i64().unwrap() {
        -1 => "x".into(),
        cs => format!("{}:{:02}:{:02}.{:02}", cs / 360000, cs / 6000 % 60, cs / 100 % 60, cs % 100),
    }
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().expect("array")
}
pub fn i(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("int {k} in {v}"))
}

/// A parsed script over a text buffer that is reused in place, so that a new script lies where the old one lay.
pub struct Holder {
    script: Option<Script<'static>>,
    buf: String,
}
impl Holder {
    pub fn new() -> Self {
        Holder { script: None, buf: String::with_capacity(1 << 16) }
    }
    pub fn set(&mut self, text: &str) {
        self.script = None;
        assert!(text.len() <= 1 << 16);
        self.buf.clear();
        self.buf.push_str(text);
        let t: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(self.buf.as_str()) };
        self.script = Some(Script::parse(t).expect("script parses"));
    }
    pub fn get(&self) -> &Script<'static> {
        self.script.as_ref().expect("script")
    }
}
impl Drop for Holder {
    fn drop(&mut self) {
        self.script = None;
    }
}

pub struct Select {
    sel: EventSelector,
    script: Holder,
}
impl Select {
    pub fn new() -> Self {
        Select { sel: EventSelector::new(), script: Holder::new() }
    }
}
fn file_index(script: &Script, e: &Event) -> i64 {
    for sec in script.sections() {
        if let Section::Events(evs) = sec {
            return evs.iter().position(|x| std::ptr::eq(x as *const _ as *const u8, e as *const _ as *const u8)).map_or(-1, |p| p as i64 + 1);
        }
    }
    -1
}
impl Machine for Select {
    fn step(&mut self, op: &Value) -> Value {
        let none = json!({"act": [], "new": [], "gone": [], "dirty": false});
        match s(op, "op") {
            "reset" => {
                self.sel = EventSelector::new();
                self.script.set("[Script Info]\nTitle: t\n");
                none
            }
            "script" => {
                let mut t = String::from("[Script Info]\nTitle: t\n");
                for sec in arr(&op["secs"]) {
                    t.push_str("\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
                    for e in arr(sec) {
                        t.push_str(&format!("{}: 0,{},{},Default,,0,0,0,,{}\n", s(e, "ty"), time(&e["s"]), time(&e["e"]), s(e, "tx")));
                    }
                }
                self.script.set(&t);
                none
            }
            "comments" => {
                self.sel.set_render_comments(op["on"].as_bool().unwrap());
                none
            }
            "forget" => {
                self.sel.reset();
                none
            }
            "select" => {
                let script = self.script.get();
                let a = self.sel.select_active(script, u(op, "t") as u32).expect("select");
                let act: Vec<i64> = a.events.iter().map(|e| file_index(script, e)).collect();
                let sorted = |v: &[usize]| {
                    let mut v: Vec<usize> = v.iter().map(|x| x + 1).collect();
                    v.sort_unstable();
                    v
                };
                json!({"act": act, "new": sorted(&a.newly_active), "gone": sorted(&a.newly_inactive), "dirty": a.is_dirty})
            }
            o => panic!("op {o}"),
        }
    }
}

pub struct Regions {
    sel: EventSelector,
}
impl Regions {
    pub fn new() -> Self {
        Regions { sel: EventSelector::new() }
    }
}
fn region(v: &Value) -> DirtyRegion {
    DirtyRegion::new(u(v, "x") as u32, u(v, "y") as u32, u(v, "w") as u32, u(v, "hh") as u32)
}
impl Machine for Regions {
    fn step(&mut self, op: &Value) -> Value {
        let mut ans = json!([]);
        match s(op, "op") {
            "reset" => self.sel = EventSelector::new(),
            "add" => self.sel.add_dirty_region(u(op, "x") as u32, u(op, "y") as u32, u(op, "w") as u32, u(op, "hh") as u32),
            "clear" => self.sel.clear_dirty_regions(),
            "forget" => self.sel.reset(),
            "pair" => {
                let (a, b) = (region(&op["a"]), region(&op["b"]));
                let m = a.merge(&b);
                let hit = a.intersects((b.x, b.y, b.x + b.width, b.y + b.height));
                ans = json!([m.x, m.y, m.width, m.height, hit as u8, a.contains_point(u(op, "px") as u32, u(op, "py") as u32) as u8, a.area()]);
            }
            o => panic!("op {o}"),
        }
        let list: Vec<Value> = self.sel.dirty_regions().iter().map(|r| json!({"x": r.x, "y": r.y, "w": r.width, "hh": r.height})).collect();
        json!({"list": list, "ans": ans})
    }
}

pub struct Collide {
    res: CollisionResolver,
    smart: SmartCollisionResolver,
}
impl Collide {
    pub fn new() -> Self {
        Collide { res: CollisionResolver::new(0., 0.), smart: SmartCollisionResolver::new(0., 0.) }
    }
}
fn bx(v: &Value) -> BoundingBox {
    BoundingBox::new(i(v, "x") as f32, i(v, "y") as f32, i(v, "w") as f32, i(v, "hh") as f32)
}
fn pe(v: &Value) -> PositionedEvent {
    PositionedEvent {
        bbox: bx(v),
        layer: i(v, "layer") as i32,
        margin_v: 0,
        margin_l: 0,
        margin_r: 0,
        alignment: i(v, "an") as u8,
        priority: v.get("pri").and_then(|p| p.as_i64()).unwrap_or(0) as i32,
    }
}
// positions are exact in the generated domain (small halves); reported in half pixels
fn half(x: f32) -> i64 {
    let d = x * 2.0;
    assert!(d.fract() == 0.0, "not a half pixel: {x}");
    d as i64
}
fn jbx(b: &BoundingBox) -> Value {
    json!([half(b.x), half(b.y), half(b.width), half(b.height)])
}
impl Machine for Collide {
    fn step(&mut self, op: &Value) -> Value {
        let mut ans = json!([]);
        match s(op, "op") {
            "reset" => {
                let (w, h) = (u(op, "w") as f32, u(op, "hh") as f32);
                self.res = CollisionResolver::new(w, h);
                self.smart = SmartCollisionResolver::new(w, h);
            }
            "margin" => self.res.set_collision_margin(u(op, "m") as f32),
            "clear" => self.res.clear(),
            "fixed" => self.res.add_fixed(pe(op)),
            "place" => ans = json!([jbx(&self.res.find_position(pe(op)))]),
            "smart" => {
                self.smart.set_priority_threshold(i(op, "thr") as i32);
                let mut evs: Vec<PositionedEvent> = arr(&op["evs"]).iter().map(pe).collect();
                // the margins are carried along untouched: use one to tell the events apart
                for (k, e) in evs.iter_mut().enumerate() {
                    e.margin_l = k as i32 + 1;
                }
                self.smart.process_events(&mut evs);
                ans = Value::Array(evs.iter().map(|e| json!([e.margin_l, jbx(&e.bbox)])).collect());
            }
            "free" => {
                let ex: Vec<BoundingBox> = arr(&op["evs"]).iter().map(bx).collect();
                let b = bx(op);
                ans = match self.smart.find_free_position(&b, &ex, &bx(&op["bounds"])) {
                    Some((x, y)) => json!([half(x), half(y), self.smart.check_collision(&b, &ex) as u8]),
                    None => json!([self.smart.check_collision(&b, &ex) as u8]),
                };
            }
            "pair" => {
                let (a, b) = (bx(&op["a"]), bx(&op["b"]));
                let c = a.center();
                ans = json!([a.intersects(&b) as u8, half(a.overlap_area(&b)), jbx(&a.expand(u(op, "m") as f32)), [half(c.0), half(c.1)]]);
            }
            o => panic!("op {o}"),
        }
        let placed: Vec<Value> = self.res.positioned_events().iter().map(|e| jbx(&e.bbox)).collect();
        json!({"ans": ans, "placed": placed})
    }
}

pub struct Caches {
    rc: RenderCache,
}
impl Caches {
    pub fn new() -> Self {
        Caches { rc: RenderCache::new() }
    }
}
fn tkey(op: &Value) -> TextCacheKey {
    let k = i(op, "k");
    // neighbouring keys differ in one component only
    TextCacheKey {
        text: if k == 1 { "b".into() } else { "a".into() },
        font_family: if k == 2 { "F".into() } else { "f".into() },
        font_size: if k == 3 { 2 } else { 1 },
        bold: k == 4,
        italic: k == 5,
    }
}
fn shaped(v: i64) -> ShapedText {
    ShapedText { glyphs: vec![], width: v as f32, height: 0., baseline: 0., font_size: 0., ascent: 0., descent: 0., ink_min: 0., ink_max: 0. }
}
impl Machine for Caches {
    fn step(&mut self, op: &Value) -> Value {
        let mut ans = -1i64; // nothing
        match s(op, "op") {
            "reset" => {
                self.rc = RenderCache::with_limits(u(op, "maxt"), u(op, "maxd"));
            }
            "putt" => ans = self.rc.store_shaped_text(tkey(op), shaped(i(op, "v"))).width as i64,
            "gett" => ans = self.rc.get_shaped_text(&tkey(op)).map_or(-1, |x| x.width as i64),
            "putd" => {
                let path = match i(op, "v") {
                    0 => None,
                    v => {
                        let mut b = tiny_skia::PathBuilder::new();
                        b.move_to(0., 0.);
                        b.line_to(v as f32, 1.);
                        b.finish()
                    }
                };
                self.rc.store_drawing_path(DrawingCacheKey { commands: format!("k{}", i(op, "k")) }, path);
            }
            "getd" => {
                ans = match self.rc.get_drawing_path(&DrawingCacheKey { commands: format!("k{}", i(op, "k")) }) {
                    None => -1,
                    Some(None) => 0,
                    Some(Some(p)) => p.bounds().right() as i64,
                }
            }
            "clear" => self.rc.clear(),
            o => panic!("op {o}"),
        }
        let st = self.rc.stats();
        json!({"ans": ans, "stats": [st.text_hits, st.text_misses, st.drawing_hits, st.drawing_misses, st.evictions]})
    }
}

pub struct Atlas {
    a: TextureAtlas,
    w: usize,
    got: Vec<([u32; 4], Box<dyn Fn(&mut TextureAtlas, &[u8])>)>,
}
impl Atlas {
    pub fn new() -> Self {
        Atlas { a: TextureAtlas::new(0, 0), w: 0, got: vec![] }
    }
}
impl Machine for Atlas {
    fn step(&mut self, op: &Value) -> Value {
        let mut ans = json!([]);
        match s(op, "op") {
            "reset" => {
                self.w = u(op, "w");
                self.a = TextureAtlas::new(self.w as u32, u(op, "hh") as u32);
                self.got.clear();
            }
            "alloc" => {
                let size = |k: &str| if i(op, k) < 0 { u32::MAX } else { i(op, k) as u32 };
                if let Some(r) = self.a.allocate(size("w"), size("hh")) {
                    ans = json!([r.id, r.x, r.y, r.width, r.height]);
                    self.got.push(([r.x, r.y, r.width, r.height], Box::new(move |a, d| a.write_region(&r, d))));
                }
            }
            "write" => {
                // the k-th region handed out, if there is one
                if let Some((r, write)) = self.got.get(u(op, "k")) {
                    let v = u(op, "v") as u8;
                    let n = (r[2] * r[3] * 4) as usize;
                    let data: Vec<u8> = (0..n.saturating_sub(u(op, "short"))).map(|_| v).collect();
                    write(&mut self.a, &data);
                    ans = json!(r);
                }
            }
            "clear" => {
                self.a.clear();
                self.got.clear();
            }
            o => panic!("op {o}"),
        }
        let px: Vec<u8> = self.a.data().chunks_exact(4).map(|c| if c.iter().all(|b| *b == c[0]) { c[0] } else { 255 }).collect();
        json!({"ans": ans, "px": px})
    }
}

/// Drawing commands and the outline they become; coordinates in 600ths.
pub struct Draw;
impl Draw {
    fn n(v: f32) -> i64 {
        let x = f64::from(v) * 600.;
        if (x - x.round()).abs() < 0.2 && x.abs() < 2e9 { x.round() as i64 } else { i64::from(i32::MAX) }
    }
}
impl Machine for Draw {
    fn step(&mut self, op: &Value) -> Value {
        use ass_renderer::pipeline::drawing::{parse_draw_commands, process_drawing_commands, DrawCommand as D};
        use tiny_skia::PathSegment as P;
        if s(op, "op") == "reset" {
            return json!({});
        }
        let text = crate::run::bytes(&op["s"]);
        let n = Self::n;
        let flat = |name: &str, ps: &[(f32, f32)]| {
            let mut v = vec![json!(name)];
            v.extend(ps.iter().flat_map(|p| [json!(n(p.0)), json!(n(p.1))]));
            Value::Array(v)
        };
        let cmds: Vec<Value> = match parse_draw_commands(&text) {
            Err(_) => vec![json!(["error"])],
            Ok(l) => l
                .iter()
                .map(|c| match c {
                    D::MoveTo { x, y } => flat("m", &[(*x, *y)]),
                    D::MoveToNoDraw { x, y } => flat("n", &[(*x, *y)]),
                    D::LineTo { x, y } => flat("l", &[(*x, *y)]),
                    D::BezierTo { x1, y1, x2, y2, x3, y3 } => flat("b", &[(*x1, *y1), (*x2, *y2), (*x3, *y3)]),
                    D::Spline { points } => flat("s", points),
                    D::ExtendSpline { points } => flat("p", points),
                    D::ClosePath => flat("c", &[]),
                })
                .collect(),
        };
        let path: Vec<Value> = process_drawing_commands(&text)
            .expect("drawing")
            .map(|p| {
                p.segments()
                    .map(|g| match g {
                        P::MoveTo(a) => flat("M", &[(a.x, a.y)]),
                        P::LineTo(a) => flat("L", &[(a.x, a.y)]),
                        P::QuadTo(a, b) => flat("Q", &[(a.x, a.y), (b.x, b.y)]),
                        P::CubicTo(a, b, c) => flat("C", &[(a.x, a.y), (b.x, b.y), (c.x, c.y)]),
                        P::Close => flat("Z", &[]),
                    })
                    .collect()
            })
            .unwrap_or_default();
        json!({"cmds": cmds, "path": path})
    }
}
