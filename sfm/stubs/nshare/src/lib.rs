//! Views of single-channel images as matrices in (row, column) order.
use image::{ImageBuffer, Luma};
use ndarray::{Array2, ArrayView2, ArrayViewMut2};
pub trait RefNdarray2 {
    type Out;
    fn ref_ndarray2(self) -> Self::Out;
}
pub trait MutNdarray2 {
    type Out;
    fn mut_ndarray2(self) -> Self::Out;
}
pub trait ToNdarray2 {
    type Out;
    fn into_ndarray2(self) -> Self::Out;
}
impl<'a, A: image::Primitive> RefNdarray2 for &'a ImageBuffer<Luma<A>, Vec<A>> {
    type Out = ArrayView2<'a, A>;
    fn ref_ndarray2(self) -> Self::Out {
        let (w, h) = self.dimensions();
        ArrayView2::from_shape((h as usize, w as usize), self.as_raw()).unwrap()
    }
}
impl<'a, A: image::Primitive> MutNdarray2 for &'a mut ImageBuffer<Luma<A>, Vec<A>> {
    type Out = ArrayViewMut2<'a, A>;
    fn mut_ndarray2(self) -> Self::Out {
        let (w, h) = self.dimensions();
        ArrayViewMut2::from_shape((h as usize, w as usize), self.as_raw_mut()).unwrap()
    }
}
impl<A: image::Primitive> ToNdarray2 for ImageBuffer<Luma<A>, Vec<A>> {
    type Out = Array2<A>;
    fn into_ndarray2(self) -> Self::Out {
        let (w, h) = self.dimensions();
        Array2::from_shape_vec((h as usize, w as usize), self.into_raw()).unwrap()
    }
}
