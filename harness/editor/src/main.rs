#[path = "../../common/src/run.rs"]
#[allow(dead_code)]
mod run;
mod doc;
mod cmds;
mod dcmds;
mod mgmt;
mod subs;
mod search;
mod lines;
mod media;
mod places;
mod tags;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, hist, out) = (a[1].as_str(), a[2].as_str(), a[3].as_str());
    match mode {
        "doc" => run::run(&|| Box::new(doc::DocMachine::new()), hist, out),
        "cmds" => run::run(&|| Box::new(cmds::Cmds::new()), hist, out),
        "dcmds" => run::run(&|| Box::new(dcmds::DocCmds::new()), hist, out),
        "sessions" => run::run(&|| Box::new(mgmt::Sessions::new()), hist, out),
        "channel" => run::run(&|| Box::new(mgmt::Channel::new()), hist, out),
        "subs" => run::run(&|| Box::new(subs::Subs::new()), hist, out),
        "tags" => run::run(&|| Box::new(tags::Tags::new()), hist, out),
        "lines" => run::run(&|| Box::new(lines::LinesMachine::new()), hist, out),
        "media" => run::run(&|| Box::new(media::Media::new()), hist, out),
        "places" => run::run(&|| Box::new(places::Places::new()), hist, out),
        "search" => run::run(&|| Box::new(search::Search::new()), hist, out),
        "exts" => run::run(&|| Box::new(mgmt::Exts::new()), hist, out),
        _ => panic!("unknown mode {mode}"),
    }
}
