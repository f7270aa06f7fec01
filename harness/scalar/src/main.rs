// The tokenizer built without the vectorised scanner.
#[path = "../../common/src/run.rs"]
#[allow(dead_code)]
mod run;
#[path = "../../core/src/tokens.rs"]
mod tokens;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    run::run(&|| Box::new(tokens::Tokens), &a[2], &a[3]);
}
