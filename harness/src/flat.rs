//! Flattening of library values into plain numbers, component by component.
use cglinalg_core::{Complex, Euler, Matrix, Point, Quaternion, Unit, Vector};
use cglinalg_transform::*;
use cglinalg_trigonometry::{Degrees, Radians};

pub struct Buf {
    n: usize,
    v: [std::mem::MaybeUninit<f64>; crate::MAX_FLAT],
}
impl Buf {
    #[inline]
    pub fn new() -> Self {
        Buf { n: 0, v: [std::mem::MaybeUninit::uninit(); crate::MAX_FLAT] }
    }
    #[inline]
    pub fn push(&mut self, x: f64) {
        self.v[self.n].write(x);
        self.n += 1;
    }
    #[inline]
    pub fn len(&self) -> usize {
        self.n
    }
    #[inline]
    pub fn as_slice(&self) -> &[f64] {
        // the first n entries have been written by push
        unsafe { std::slice::from_raw_parts(self.v.as_ptr() as *const f64, self.n) }
    }
}

#[inline]
pub fn close(g: &[f64], w: &[f64], tol: f64) -> bool {
    if g.len() != w.len() {
        return false;
    }
    let mut scale = 1.0f64;
    for x in w {
        if x.abs() > scale && x.is_finite() {
            scale = x.abs();
        }
    }
    g.iter().zip(w).all(|(a, b)| (a == b) || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol * scale)
}

pub trait Flat {
    fn flat(&self, out: &mut Buf);
    fn vec(&self) -> Vec<f64> {
        let mut b = Buf::new();
        self.flat(&mut b);
        b.as_slice().to_vec()
    }
}

macro_rules! prim {
    ($($t:ty)*) => {$(impl Flat for $t { #[inline] fn flat(&self, out: &mut Buf) { out.push(*self as f64) } })*};
}
prim!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
impl Flat for bool {
    #[inline]
    fn flat(&self, out: &mut Buf) {
        out.push(*self as u8 as f64)
    }
}
impl Flat for () {
    fn flat(&self, _out: &mut Buf) {}
}
impl<T: Flat> Flat for Option<T> {
    #[inline]
    fn flat(&self, out: &mut Buf) {
        match self {
            None => out.push(-7.25),
            Some(x) => {
                out.push(7.5);
                x.flat(out)
            }
        }
    }
}
impl<T: Flat + ?Sized> Flat for &T {
    #[inline]
    fn flat(&self, out: &mut Buf) {
        (**self).flat(out)
    }
}
impl<T: Flat + ?Sized> Flat for &mut T {
    #[inline]
    fn flat(&self, out: &mut Buf) {
        (**self).flat(out)
    }
}
impl<T: Flat, const N: usize> Flat for [T; N] {
    #[inline]
    fn flat(&self, out: &mut Buf) {
        for x in self {
            x.flat(out)
        }
    }
}
impl<T: Flat> Flat for [T] {
    fn flat(&self, out: &mut Buf) {
        for x in self {
            x.flat(out)
        }
    }
}
impl<T: Flat> Flat for Vec<T> {
    fn flat(&self, out: &mut Buf) {
        for x in self {
            x.flat(out)
        }
    }
}
macro_rules! tup {
    ($(($($n:ident)*))*) => {$(
        #[allow(non_snake_case)]
        impl<$($n: Flat),*> Flat for ($($n,)*) {
            #[inline]
            fn flat(&self, out: &mut Buf) { let ($($n,)*) = self; $($n.flat(out);)* }
        }
    )*};
}
tup!((A)(A B)(A B C)(A B C D)(A B C D E)(A B C D E F));

impl<S: Flat, const N: usize> Flat for Vector<S, N> {
    #[inline]
    fn flat(&self, out: &mut Buf) {
        let a: &[S; N] = self.as_ref();
        a.flat(out)
    }
}
impl<S: Flat, const N: usize> Flat for Point<S, N> {
    #[inline]
    fn flat(&self, out: &mut Buf) {
        let a: &[S; N] = self.as_ref();
        a.flat(out)
    }
}
/// Column by column.
impl<S: Flat, const R: usize, const C: usize> Flat for Matrix<S, R, C> {
    #[inline]
    fn flat(&self, out: &mut Buf) {
        let a: &[[S; R]; C] = self.as_ref();
        a.flat(out)
    }
}
impl<S: Flat> Flat for Quaternion<S> {
    #[inline]
    fn flat(&self, out: &mut Buf) {
        let a: &[S; 4] = self.as_ref();
        a.flat(out)
    }
}
impl<S: Flat> Flat for Complex<S> {
    #[inline]
    fn flat(&self, out: &mut Buf) {
        let a: &[S; 2] = self.as_ref();
        a.flat(out)
    }
}
impl<S: Flat> Flat for Radians<S> {
    #[inline]
    fn flat(&self, out: &mut Buf) {
        self.0.flat(out)
    }
}
impl<S: Flat> Flat for Degrees<S> {
    #[inline]
    fn flat(&self, out: &mut Buf) {
        self.0.flat(out)
    }
}
impl<A: Flat> Flat for Euler<A> {
    #[inline]
    fn flat(&self, out: &mut Buf) {
        self.x.flat(out);
        self.y.flat(out);
        self.z.flat(out);
    }
}
impl<T: Flat> Flat for Unit<T> {
    #[inline]
    fn flat(&self, out: &mut Buf) {
        AsRef::<T>::as_ref(self).flat(out)
    }
}
impl<const N: usize> Flat for Translation<f64, N> {
    fn flat(&self, out: &mut Buf) {
        self.to_vector().flat(out)
    }
}
impl<const N: usize> Flat for Scale<f64, N> {
    fn flat(&self, out: &mut Buf) {
        self.to_vector().flat(out)
    }
}
impl<const N: usize> Flat for Rotation<f64, N> {
    fn flat(&self, out: &mut Buf) {
        self.to_matrix().flat(out)
    }
}
impl<const N: usize> Flat for Isometry<f64, N> {
    fn flat(&self, out: &mut Buf) {
        self.rotation().flat(out);
        self.translation().flat(out);
    }
}
impl<const N: usize> Flat for Similarity<f64, N> {
    fn flat(&self, out: &mut Buf) {
        self.scale().flat(out);
        self.rotation().flat(out);
        self.translation().flat(out);
    }
}
