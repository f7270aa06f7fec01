// Whole frames: the same renderer through a history, against fresh ones.
use crate::run::{s, u, Machine};
use crate::small::{arr, time, Holder};
use ass_core::parser::Script;
use ass_renderer::backends::coverage::RenderBitmap;
use ass_renderer::{BackendType, Frame, RenderContext, Renderer};
use serde_json::{json, Value};

pub fn event_line(e: &Value) -> String {
    let g = |k: &str| s(e, k).to_string();
    format!("{}: {},{},{},{},,{},{},{},{},{}\n", g("ty"), g("layer"), time(&e["s"]), time(&e["e"]), g("style"), g("ml"), g("mr"), g("mv"), g("eff"), g("tx"))
}
pub fn script_text(op: &Value) -> String {
    let mut t = String::new();
    for part in arr(&op["order"]) {
        match part.as_str().unwrap() {
            "info" => {
                t.push_str("[Script Info]\nTitle: t\n");
                t.push_str(s(op, "info"));
            }
            "styles" => {
                t.push_str("[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n");
                t.push_str(s(op, "styles"));
            }
            "events" => {
                t.push_str("[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
                for e in arr(&op["evs"]) {
                    t.push_str(&event_line(e));
                }
            }
            o => panic!("part {o}"),
        }
        t.push('\n');
    }
    t
}
pub fn renderer(w: u32, h: u32) -> Renderer {
    let c = RenderContext::with_font_database(w, h, fontdb::Database::new());
    Renderer::new(BackendType::Software, c).expect("renderer")
}
fn digest<'a>(parts: impl Iterator<Item = &'a [u8]>) -> [u32; 2] {
    let mut d = 0xcbf29ce484222325u64;
    for p in parts {
        for b in (p.len() as u64).to_le_bytes().iter().chain(p) {
            d = (d ^ u64::from(*b)).wrapping_mul(0x100000001b3);
        }
    }
    [(d >> 34) as u32, (d & 0x3fff_ffff) as u32]
}
fn seen(f: &Frame) -> Value {
    json!({"dg": digest(std::iter::once(f.pixels())), "fw": f.width(), "fh": f.height(), "bytes": f.pixels().len(), "ts": f.timestamp(),
           "blank": f.pixels().iter().all(|b| *b == 0), "off": 0, "offa": 0, "over": over(f.pixels())})
}
/// Pixels with more colour than their opacity leaves room for.
fn over(p: &[u8]) -> usize {
    p.chunks_exact(4).filter(|p| p[..3].iter().any(|c| *c > p[3])).count()
}
/// Lay the bitmaps over each other in exact arithmetic.
fn flatten(l: &[RenderBitmap], w: i64, h: i64) -> Vec<f64> {
    let mut out = vec![0f64; (w * h * 4) as usize];
    let mut put = |x: i64, y: i64, px: [f64; 4]| {
        if x >= 0 && y >= 0 && x < w && y < h {
            let at = ((y * w + x) * 4) as usize;
            for k in 0..4 {
                out[at + k] = (px[k] + out[at + k] * (1. - px[3])).min(1.);
            }
        }
    };
    for b in l {
        match b {
            RenderBitmap::Coverage { width, height, coverage, x, y, color } => {
                for k in 0..(*width as i64) * (*height as i64) {
                    let a = f64::from(color[3]) / 255. * f64::from(coverage[k as usize]) / 255.;
                    let c = |n: usize| f64::from(color[n]) / 255. * a;
                    put(*x as i64 + k % *width as i64, *y as i64 + k / *width as i64, [c(0), c(1), c(2), a]);
                }
            }
            RenderBitmap::Rgba { width, height, pixels, x, y } => {
                for k in 0..(*width as i64) * (*height as i64) {
                    let c = |n: usize| f64::from(pixels[k as usize * 4 + n]) / 255.;
                    put(*x as i64 + k % *width as i64, *y as i64 + k / *width as i64, [c(0), c(1), c(2), c(3)]);
                }
            }
        }
    }
    out
}
fn bitmaps(r: &mut Renderer, script: &Script, t: u32, like: &Frame) -> Value {
    let l = r.render_frame_bitmaps(script, t).expect("bitmaps");
    let (w, h) = (like.width() as i64, like.height() as i64);
    let flat = flatten(&l, w, h);
    let dg: Vec<u8> = flat.iter().flat_map(|a| ((a * 255. * 64.).round() as u16).to_le_bytes()).collect();
    let off = |opacity: bool| {
        let each = flat.iter().zip(like.pixels()).enumerate().filter(|(k, _)| !opacity || k % 4 == 3);
        each.map(|(_, (a, b))| (a * 255. - f64::from(*b)).abs()).fold(0., f64::max).ceil() as i64
    };
    json!({"dg": digest(std::iter::once(dg.as_slice())), "fw": w, "fh": h, "bytes": w * h * 4, "ts": t, "blank": l.is_empty(), "over": l.iter().map(|b| if let RenderBitmap::Rgba { pixels, .. } = b { over(pixels) } else { 0 }).sum::<usize>(), "off": off(false), "offa": off(true)})
}

pub struct Frames {
    r: Option<Renderer>,
    script: Holder,
    size: (u32, u32),
    got: Vec<Frame>,
}
impl Frames {
    pub fn new() -> Self {
        Frames { r: None, script: Holder::new(), size: (1, 1), got: vec![] }
    }
}
impl Machine for Frames {
    fn step(&mut self, op: &Value) -> Value {
        let none = json!({"dg": [0, 0], "fw": 0, "fh": 0, "bytes": 0, "ts": 0, "blank": true, "off": 0, "offa": 0, "over": 0});
        match s(op, "op") {
            "reset" => {
                self.size = (u(op, "w") as u32, u(op, "hh") as u32);
                self.r = Some(renderer(self.size.0, self.size.1));
                self.got.clear();
                self.script.set("[Script Info]\nTitle: t\n");
                none
            }
            "script" => {
                self.script.set(&script_text(op));
                self.got.clear();
                none
            }
            "size" => {
                self.size = (u(op, "w") as u32, u(op, "hh") as u32);
                let c = RenderContext::with_font_database(self.size.0, self.size.1, fontdb::Database::new());
                self.r.as_mut().unwrap().set_context(c);
                none
            }
            o => {
                let t = u(op, "t") as u32;
                let script = self.script.get();
                let size = self.size;
                let r = self.r.as_mut().unwrap();
                // another thread, so that nothing kept by this one can matter
                let fresh = || {
                    std::thread::scope(|sc| sc.spawn(|| renderer(size.0, size.1).render_frame(script, t).expect("frame")).join().expect("fresh renderer"))
                };
                match o {
                    "fresh" => seen(&fresh()),
                    "bitmaps" => bitmaps(r, script, t, &fresh()),
                    "freshmaps" => std::thread::scope(|sc| {
                        sc.spawn(|| {
                            let f = renderer(size.0, size.1).render_frame(script, t).expect("frame");
                            std::thread::scope(|sc| sc.spawn(|| bitmaps(&mut renderer(size.0, size.1), script, t, &f)).join().expect("fresh renderer"))
                        })
                        .join()
                        .expect("fresh renderer")
                    }),
                    "frame" | "incr" => {
                        let k = if o == "frame" { usize::MAX } else { u(op, "k") };
                        let f = if k < self.got.len() {
                            let prev = self.got[self.got.len() - 1 - k].clone();
                            r.render_frame_incremental(script, t, &prev).expect("frame")
                        } else {
                            r.render_frame(script, t).expect("frame")
                        };
                        self.got.push(f.clone());
                        seen(&f)
                    }
                    o => panic!("op {o}"),
                }
            }
        }
    }
}

/// Runs a machine on a thread of its own, so that what the code keeps per thread belongs to one history.
pub struct Alone {
    to: std::sync::mpsc::Sender<Value>,
    from: std::sync::mpsc::Receiver<Result<Value, String>>,
}
impl Alone {
    pub fn new(make: fn() -> Box<dyn Machine>) -> Self {
        let (to, rx) = std::sync::mpsc::channel::<Value>();
        let (tx, from) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let mut m = make();
            for op in rx {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.step(&op)));
                let r = r.map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default());
                if tx.send(r).is_err() {
                    break;
                }
            }
        });
        Alone { to, from }
    }
}
impl Machine for Alone {
    fn step(&mut self, op: &Value) -> Value {
        self.to.send(op.clone()).expect("worker");
        self.from.recv().expect("worker").unwrap_or_else(|m| panic!("{m}"))
    }
}
