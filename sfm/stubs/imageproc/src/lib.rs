pub mod definitions {
    use image::{ImageBuffer, Pixel};
    pub type Image<P> = ImageBuffer<P, Vec<<P as Pixel>::Subpixel>>;
    pub trait Clamp<T> {
        fn clamp(x: T) -> Self;
    }
    macro_rules! int { ($($t:ty),*) => { $(
        impl Clamp<f32> for $t { fn clamp(x: f32) -> $t { if x < <$t>::MAX as f32 { if x > <$t>::MIN as f32 { x as $t } else { <$t>::MIN } } else { <$t>::MAX } } }
        impl Clamp<f64> for $t { fn clamp(x: f64) -> $t { if x < <$t>::MAX as f64 { if x > <$t>::MIN as f64 { x as $t } else { <$t>::MIN } } else { <$t>::MAX } } }
    )* } }
    int!(u8, u16);
    impl Clamp<f32> for f32 {
        fn clamp(x: f32) -> f32 {
            x
        }
    }
}
pub mod math {
    use conv::ValueInto;
    pub fn cast<T: ValueInto<f32>>(n: T) -> f32 {
        n.value_into().ok().unwrap()
    }
}
