#[path = "../../common/src/run.rs"]
#[allow(dead_code)]
mod run;
mod analysis;
mod codec;
mod incr;
mod parse;
mod plugins;
mod script;
mod stream;
mod tags;
mod text;
mod tokens;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let make: &dyn Fn() -> Box<dyn run::Machine> = match a[1].as_str() {
        "parse" => &|| Box::new(parse::Parse),
        "analysis" => &|| Box::new(analysis::Analysis),
        "incr" => &|| Box::new(incr::Incr::default()),
        "stream" => &|| Box::new(stream::Stream::new()),
        "tokens" => &|| Box::new(tokens::Tokens),
        "text" => &|| Box::new(text::Text),
        "codec" => &|| Box::new(codec::Codec),
        "overlap" => &|| Box::new(codec::Overlap),
        "tags" => &|| Box::new(tags::Tags),
        "args" => &|| Box::new(tags::Args::new()),
        "plugins" => &|| Box::new(plugins::Plugins::default()),
        "script" => &|| Box::new(script::Mutable::default()),
        m => panic!("unknown mode {m}"),
    };
    run::run(make, &a[2], &a[3]);
}
