//! A thin public door to the construction of the scale space.
use crate::image::GrayFloatImage;
use crate::{Akaze, EvolutionStep};

pub fn scale_space(a: &Akaze, evolutions: &mut Vec<EvolutionStep>, i: &GrayFloatImage) {
    a.create_nonlinear_scale_space(evolutions, i)
}
