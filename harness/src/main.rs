extern crate engine;
mod na;
mod props;
mod refm;

fn main() {
    engine::main_with(props::dispatch);
}
