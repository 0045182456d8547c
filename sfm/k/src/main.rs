//! Bounded-exhaustive checks of the AKAZE feature extractor.
mod detect;
mod e2e;
mod features;
mod filters;
mod png;
mod util;

fn main() {
    engine::main_with(|run| {
        match run.id.as_str() {
            "K01" => filters::k01(run),
            "K03" => detect::k03(run),
            "K04" => features::k04(run),
            "K05" => e2e::k05(run),
            _ => return false,
        }
        true
    })
}
