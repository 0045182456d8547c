//! Bounded-exhaustive checks of the reconstruction.
#[allow(dead_code)]
#[path = "../../../../harness/src/refm.rs"]
mod refm;
mod cloud;
mod frames;
mod graph;
mod pipeline;
mod store;
mod world;

pub fn main() -> ! {
    engine::main_with(|run| {
        match run.id.as_str() {
            "R01" => store::r01(run),
            "R02" => cloud::r02(run),
            "R03" => graph::r03(run),
            "R04" => frames::r04(run),
            "R05" => pipeline::r05(run),
            _ => return false,
        }
        true
    })
}
