//! In-memory images with the part of the `image` crate's interface that rust-cv uses.
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut, Index, IndexMut};

pub trait Primitive: Copy + Default + PartialOrd + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    const MAX: Self;
    /// Weighted mean of red, green and blue with the sRGB weights.
    fn luma(rgb: [Self; 3]) -> Self;
}
macro_rules! prim { ($($t:ty),*) => { $(impl Primitive for $t {
    const MAX: $t = <$t>::MAX;
    fn luma([r, g, b]: [$t; 3]) -> $t { ((2126 * r as u64 + 7152 * g as u64 + 722 * b as u64) / 10000) as $t }
})* } }
prim!(u8, u16);
impl Primitive for f32 {
    const MAX: f32 = 1.0;
    fn luma([r, g, b]: [f32; 3]) -> f32 {
        ((2126.0 * r as f64 + 7152.0 * g as f64 + 722.0 * b as f64) / 10000.0) as f32
    }
}
pub trait Pixel: Copy + Clone {
    type Subpixel: Primitive;
    const CHANNEL_COUNT: u8;
    fn channels(&self) -> &[Self::Subpixel];
    fn channels_mut(&mut self) -> &mut [Self::Subpixel];
    fn from_slice(s: &[Self::Subpixel]) -> &Self;
    fn from_slice_mut(s: &mut [Self::Subpixel]) -> &mut Self;
    fn to_luma(&self) -> Luma<Self::Subpixel>;
    fn to_rgb(&self) -> Rgb<Self::Subpixel>;
    fn alpha(&self) -> Self::Subpixel;
    fn map<F: FnMut(Self::Subpixel) -> Self::Subpixel>(&self, mut f: F) -> Self {
        let mut p = *self;
        p.channels_mut().iter_mut().for_each(|c| *c = f(*c));
        p
    }
}
macro_rules! pixel {
    ($n:ident, $c:literal, $rgb:expr, $a:expr) => {
        #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, Default)]
        #[repr(C)]
        pub struct $n<T>(pub [T; $c]);
        impl<T: Primitive> Pixel for $n<T> {
            type Subpixel = T;
            const CHANNEL_COUNT: u8 = $c;
            fn channels(&self) -> &[T] {
                &self.0
            }
            fn channels_mut(&mut self) -> &mut [T] {
                &mut self.0
            }
            fn from_slice(s: &[T]) -> &Self {
                assert_eq!(s.len(), $c);
                // SAFETY: a pixel is exactly its array of channels.
                unsafe { &*(s.as_ptr() as *const Self) }
            }
            fn from_slice_mut(s: &mut [T]) -> &mut Self {
                assert_eq!(s.len(), $c);
                // SAFETY: as above.
                unsafe { &mut *(s.as_mut_ptr() as *mut Self) }
            }
            fn to_luma(&self) -> Luma<T> {
                let rgb: fn(&[T; $c]) -> Option<[T; 3]> = $rgb;
                Luma([rgb(&self.0).map_or(self.0[0], T::luma)])
            }
            fn to_rgb(&self) -> Rgb<T> {
                let rgb: fn(&[T; $c]) -> Option<[T; 3]> = $rgb;
                Rgb(rgb(&self.0).unwrap_or([self.0[0]; 3]))
            }
            fn alpha(&self) -> T {
                let a: Option<usize> = $a;
                a.map_or(T::MAX, |i| self.0[i])
            }
        }
        impl<T> Index<usize> for $n<T> {
            type Output = T;
            fn index(&self, i: usize) -> &T {
                &self.0[i]
            }
        }
        impl<T> IndexMut<usize> for $n<T> {
            fn index_mut(&mut self, i: usize) -> &mut T {
                &mut self.0[i]
            }
        }
    };
}
pixel!(Luma, 1, |_| None, None);
pixel!(LumaA, 2, |_| None, Some(1));
pixel!(Rgb, 3, |c| Some([c[0], c[1], c[2]]), None);
pixel!(Rgba, 4, |c| Some([c[0], c[1], c[2]]), Some(3));

pub trait GenericImageView {
    type Pixel: Pixel;
    fn dimensions(&self) -> (u32, u32);
    fn width(&self) -> u32 {
        self.dimensions().0
    }
    fn height(&self) -> u32 {
        self.dimensions().1
    }
    fn in_bounds(&self, x: u32, y: u32) -> bool {
        x < self.dimensions().0 && y < self.dimensions().1
    }
    fn get_pixel(&self, x: u32, y: u32) -> Self::Pixel;
    /// # Safety
    /// The coordinates must be in bounds. Checked here, so that a caller breaking the contract is noticed.
    unsafe fn unsafe_get_pixel(&self, x: u32, y: u32) -> Self::Pixel {
        self.get_pixel(x, y)
    }
}
pub trait GenericImage: GenericImageView {
    fn put_pixel(&mut self, x: u32, y: u32, p: Self::Pixel);
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct ImageBuffer<P: Pixel, C> {
    width: u32,
    height: u32,
    p: PhantomData<P>,
    data: C,
}
impl<P: Pixel, C> ImageBuffer<P, C> {
    pub fn width(&self) -> u32 {
        self.width
    }
    pub fn height(&self) -> u32 {
        self.height
    }
    pub fn dimensions(&self) -> (u32, u32) {
        (self.width, self.height)
    }
    pub fn into_raw(self) -> C {
        self.data
    }
    pub fn as_raw(&self) -> &C {
        &self.data
    }
    #[doc(hidden)]
    pub fn as_raw_mut(&mut self) -> &mut C {
        &mut self.data
    }
}
fn need<P: Pixel>(w: u32, h: u32) -> usize {
    w as usize * h as usize * P::CHANNEL_COUNT as usize
}
impl<P: Pixel, C: Deref<Target = [P::Subpixel]>> ImageBuffer<P, C> {
    pub fn from_raw(width: u32, height: u32, data: C) -> Option<Self> {
        (need::<P>(width, height) <= data.len()).then_some(ImageBuffer { width, height, p: PhantomData, data })
    }
    fn at(&self, x: u32, y: u32) -> std::ops::Range<usize> {
        assert!(x < self.width && y < self.height, "Image index {:?} out of bounds {:?}", (x, y), self.dimensions());
        let n = P::CHANNEL_COUNT as usize;
        let i = (y as usize * self.width as usize + x as usize) * n;
        i..i + n
    }
    pub fn get_pixel(&self, x: u32, y: u32) -> &P {
        P::from_slice(&self.data[self.at(x, y)])
    }
    pub fn get_pixel_checked(&self, x: u32, y: u32) -> Option<&P> {
        (x < self.width && y < self.height).then(|| self.get_pixel(x, y))
    }
    pub fn pixels(&self) -> impl DoubleEndedIterator<Item = &P> + '_ {
        self.data[..need::<P>(self.width, self.height)].chunks_exact(P::CHANNEL_COUNT as usize).map(P::from_slice)
    }
    pub fn enumerate_pixels(&self) -> impl Iterator<Item = (u32, u32, &P)> + '_ {
        let w = self.width;
        self.pixels().enumerate().map(move |(i, p)| (i as u32 % w, i as u32 / w, p))
    }
}
impl<P: Pixel, C: DerefMut<Target = [P::Subpixel]>> ImageBuffer<P, C> {
    pub fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut P {
        let r = self.at(x, y);
        P::from_slice_mut(&mut self.data[r])
    }
    pub fn put_pixel(&mut self, x: u32, y: u32, p: P) {
        *self.get_pixel_mut(x, y) = p;
    }
    pub fn pixels_mut(&mut self) -> impl Iterator<Item = &mut P> + '_ {
        let n = need::<P>(self.width, self.height);
        self.data[..n].chunks_exact_mut(P::CHANNEL_COUNT as usize).map(P::from_slice_mut)
    }
}
impl<P: Pixel> ImageBuffer<P, Vec<P::Subpixel>> {
    pub fn new(width: u32, height: u32) -> Self {
        ImageBuffer { width, height, p: PhantomData, data: vec![P::Subpixel::default(); need::<P>(width, height)] }
    }
    pub fn from_pixel(width: u32, height: u32, p: P) -> Self {
        Self::from_fn(width, height, |_, _| p)
    }
    pub fn from_fn(width: u32, height: u32, mut f: impl FnMut(u32, u32) -> P) -> Self {
        let mut data = Vec::with_capacity(need::<P>(width, height));
        for y in 0..height {
            for x in 0..width {
                data.extend_from_slice(f(x, y).channels());
            }
        }
        ImageBuffer { width, height, p: PhantomData, data }
    }
    pub fn from_vec(width: u32, height: u32, data: Vec<P::Subpixel>) -> Option<Self> {
        Self::from_raw(width, height, data)
    }
    pub fn into_vec(self) -> Vec<P::Subpixel> {
        self.data
    }
}
impl<P: Pixel, C: Deref<Target = [P::Subpixel]>> Deref for ImageBuffer<P, C> {
    type Target = [P::Subpixel];
    fn deref(&self) -> &[P::Subpixel] {
        &self.data
    }
}
impl<P: Pixel, C: DerefMut<Target = [P::Subpixel]>> DerefMut for ImageBuffer<P, C> {
    fn deref_mut(&mut self) -> &mut [P::Subpixel] {
        &mut self.data
    }
}
impl<P: Pixel, C: Deref<Target = [P::Subpixel]>> Index<(u32, u32)> for ImageBuffer<P, C> {
    type Output = P;
    fn index(&self, (x, y): (u32, u32)) -> &P {
        self.get_pixel(x, y)
    }
}
impl<P: Pixel, C: DerefMut<Target = [P::Subpixel]>> IndexMut<(u32, u32)> for ImageBuffer<P, C> {
    fn index_mut(&mut self, (x, y): (u32, u32)) -> &mut P {
        self.get_pixel_mut(x, y)
    }
}
impl<P: Pixel, C: Deref<Target = [P::Subpixel]>> GenericImageView for ImageBuffer<P, C> {
    type Pixel = P;
    fn dimensions(&self) -> (u32, u32) {
        (self.width, self.height)
    }
    fn get_pixel(&self, x: u32, y: u32) -> P {
        *ImageBuffer::get_pixel(self, x, y)
    }
}
impl<P: Pixel, C: DerefMut<Target = [P::Subpixel]>> GenericImage for ImageBuffer<P, C> {
    fn put_pixel(&mut self, x: u32, y: u32, p: P) {
        ImageBuffer::put_pixel(self, x, y, p)
    }
}
pub type GrayImage = ImageBuffer<Luma<u8>, Vec<u8>>;
pub type GrayAlphaImage = ImageBuffer<LumaA<u8>, Vec<u8>>;
pub type RgbImage = ImageBuffer<Rgb<u8>, Vec<u8>>;
pub type RgbaImage = ImageBuffer<Rgba<u8>, Vec<u8>>;
pub type Rgb32FImage = ImageBuffer<Rgb<f32>, Vec<f32>>;
pub type Rgba32FImage = ImageBuffer<Rgba<f32>, Vec<f32>>;
type Buf<P> = ImageBuffer<P, Vec<<P as Pixel>::Subpixel>>;

#[derive(Debug, Clone, PartialEq)]
#[non_exhaustive]
pub enum DynamicImage {
    ImageLuma8(GrayImage),
    ImageLumaA8(GrayAlphaImage),
    ImageRgb8(RgbImage),
    ImageRgba8(RgbaImage),
    ImageLuma16(Buf<Luma<u16>>),
    ImageLumaA16(Buf<LumaA<u16>>),
    ImageRgb16(Buf<Rgb<u16>>),
    ImageRgba16(Buf<Rgba<u16>>),
    ImageRgb32F(Rgb32FImage),
    ImageRgba32F(Rgba32FImage),
}
macro_rules! each {
    ($s:expr, $i:ident => $e:expr) => {
        match $s {
            DynamicImage::ImageLuma8($i) => $e,
            DynamicImage::ImageLumaA8($i) => $e,
            DynamicImage::ImageRgb8($i) => $e,
            DynamicImage::ImageRgba8($i) => $e,
            DynamicImage::ImageLuma16($i) => $e,
            DynamicImage::ImageLumaA16($i) => $e,
            DynamicImage::ImageRgb16($i) => $e,
            DynamicImage::ImageRgba16($i) => $e,
            DynamicImage::ImageRgb32F($i) => $e,
            DynamicImage::ImageRgba32F($i) => $e,
        }
    };
}
fn conv<A: Pixel, B: Pixel>(i: &Buf<A>, f: impl Fn(&A) -> B) -> Buf<B> {
    ImageBuffer::from_fn(i.width, i.height, |x, y| f(i.get_pixel(x, y)))
}
/// Rescales a sample to 8 bits.
pub trait To8 {
    fn to8(self) -> u8;
}
impl To8 for u8 {
    fn to8(self) -> u8 {
        self
    }
}
impl To8 for u16 {
    fn to8(self) -> u8 {
        ((self as u32 + 128) / 257) as u8
    }
}
impl To8 for f32 {
    fn to8(self) -> u8 {
        (self.clamp(0.0, 1.0) * 255.0).round() as u8
    }
}
impl DynamicImage {
    pub fn width(&self) -> u32 {
        each!(self, i => i.width())
    }
    pub fn height(&self) -> u32 {
        each!(self, i => i.height())
    }
    pub fn grayscale(&self) -> DynamicImage {
        use DynamicImage::*;
        match self {
            ImageLuma8(_) | ImageLumaA8(_) | ImageLuma16(_) | ImageLumaA16(_) => self.clone(),
            ImageRgb8(i) => ImageLuma8(conv(i, |p| p.to_luma())),
            ImageRgba8(i) => ImageLumaA8(conv(i, |p| LumaA([p.to_luma()[0], p[3]]))),
            ImageRgb16(i) => ImageLuma16(conv(i, |p| p.to_luma())),
            ImageRgba16(i) => ImageLumaA16(conv(i, |p| LumaA([p.to_luma()[0], p[3]]))),
            ImageRgb32F(i) => ImageRgb32F(conv(i, |p| Rgb([p.to_luma()[0]; 3]))),
            ImageRgba32F(i) => ImageRgba32F(conv(i, |p| {
                let l = p.to_luma()[0];
                Rgba([l, l, l, p[3]])
            })),
        }
    }
    pub fn to_rgb8(&self) -> RgbImage {
        each!(self, i => conv(i, |p| Rgb(p.to_rgb().0.map(To8::to8))))
    }
    pub fn to_luma8(&self) -> GrayImage {
        each!(self, i => conv(i, |p| Luma(p.to_luma().0.map(To8::to8))))
    }
}
#[derive(Debug)]
pub enum ImageError {
    Unsupported,
}
impl std::fmt::Display for ImageError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("decoding files is not supported")
    }
}
impl std::error::Error for ImageError {}
pub type ImageResult<T> = Result<T, ImageError>;
pub fn open<P: AsRef<std::path::Path>>(_: P) -> ImageResult<DynamicImage> {
    Err(ImageError::Unsupported)
}
