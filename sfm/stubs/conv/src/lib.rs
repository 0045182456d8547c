//! Value preserving conversions to f32.
pub trait ValueFrom<S>: Sized {
    type Err;
    fn value_from(s: S) -> Result<Self, Self::Err>;
}
pub trait ValueInto<D> {
    type Err;
    fn value_into(self) -> Result<D, Self::Err>;
}
impl<S, D: ValueFrom<S>> ValueInto<D> for S {
    type Err = D::Err;
    fn value_into(self) -> Result<D, D::Err> {
        D::value_from(self)
    }
}
#[derive(Debug, Clone, Copy)]
pub struct NoError;
macro_rules! exact { ($($s:ty => $d:ty),*) => { $(impl ValueFrom<$s> for $d { type Err = NoError; fn value_from(s: $s) -> Result<$d, NoError> { Ok(s as $d) } })* } }
exact!(u8 => f32, u16 => f32, i8 => f32, i16 => f32, f32 => f32, u8 => f64, u16 => f64, u32 => f64, f32 => f64, f64 => f64, u8 => i32, u16 => i32);
