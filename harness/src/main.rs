#[macro_use]
mod engine;
mod cli;
mod props;
mod util;

fn main() {
    cli::run(props::all())
}
