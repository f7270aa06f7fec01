#[path = "../../common/src/run.rs"]
#[allow(dead_code)]
mod run;
mod frames;
mod paint;
mod runs;
mod small;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, hist, out) = (a[1].as_str(), a[2].as_str(), a[3].as_str());
    match mode {
        "select" => run::run(&|| Box::new(small::Select::new()), hist, out),
        "regions" => run::run(&|| Box::new(small::Regions::new()), hist, out),
        "collide" => run::run(&|| Box::new(small::Collide::new()), hist, out),
        "caches" => run::run(&|| Box::new(small::Caches::new()), hist, out),
        "atlas" => run::run(&|| Box::new(small::Atlas::new()), hist, out),
        "paint" => run::run(&|| Box::new(paint::Paint), hist, out),
        "runs" => run::run(&|| Box::new(runs::Runs::default()), hist, out),
        "draw" => run::run(&|| Box::new(small::Draw), hist, out),
        "frames" => run::run(&|| Box::new(frames::Alone::new(|| Box::new(frames::Frames::new()))), hist, out),
        _ => panic!("unknown mode {mode}"),
    }
}
