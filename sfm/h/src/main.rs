//! Bounded-exhaustive checks of the construction of AKAZE's scale space.
mod scale;
#[path = "../../k/src/util.rs"]
mod util;

fn main() {
    engine::main_with(|run| {
        match run.id.as_str() {
            "K02" => scale::k02(run),
            _ => return false,
        }
        true
    })
}
