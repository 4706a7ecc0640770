//! Offline stand-in for the git dependency `approx_cmp` (github.com/lambdaxymox/approx_cmp).
//!
//! The real crate is not available in this sandbox, so this crate reconstructs the interface
//! that cglinalg uses (trait names, associated types, method names and macro syntax) with the
//! documented meaning of the three comparisons:
//!
//! * `abs_diff`:  |a - b| <= max_abs_diff
//! * `relative`:  a == b, or |a - b| <= max_abs_diff, or |a - b| <= max_relative * max(|a|, |b|)
//! * `ulps`:      |a - b| <= max_abs_diff, or same sign and the distance in units in the last place <= max_ulps
#![cfg_attr(not(test), no_std)]

use core::fmt::Debug;

pub trait AbsDiffEq<Rhs: ?Sized = Self> {
    type Tolerance: Sized + Debug;
    fn abs_diff_eq(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> bool;
    #[inline]
    fn abs_diff_ne(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> bool {
        !self.abs_diff_eq(other, max_abs_diff)
    }
}

pub trait AbsDiffAllEq<Rhs: ?Sized = Self>: AbsDiffEq<Rhs> {
    type AllTolerance: Sized + Debug;
    fn abs_diff_all_eq(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> bool;
    #[inline]
    fn abs_diff_all_ne(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> bool {
        !self.abs_diff_all_eq(other, max_abs_diff)
    }
}

pub trait AssertAbsDiffEq<Rhs: ?Sized = Self>: AbsDiffEq<Rhs> {
    type DebugAbsDiff: Debug;
    type DebugTolerance: Debug;
    fn debug_abs_diff(&self, other: &Rhs) -> Self::DebugAbsDiff;
    fn debug_abs_diff_tolerance(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance;
}

pub trait AssertAbsDiffAllEq<Rhs: ?Sized = Self>: AbsDiffAllEq<Rhs> {
    type AllDebugTolerance: Debug;
    fn debug_abs_diff_all_tolerance(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance;
}

pub trait RelativeEq<Rhs: ?Sized = Self> {
    type Tolerance: Sized + Debug;
    fn relative_eq(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_relative: &Self::Tolerance) -> bool;
    #[inline]
    fn relative_ne(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_relative: &Self::Tolerance) -> bool {
        !self.relative_eq(other, max_abs_diff, max_relative)
    }
}

pub trait RelativeAllEq<Rhs: ?Sized = Self>: RelativeEq<Rhs> {
    type AllTolerance: Sized + Debug;
    fn relative_all_eq(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_relative: &Self::AllTolerance) -> bool;
    #[inline]
    fn relative_all_ne(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_relative: &Self::AllTolerance) -> bool {
        !self.relative_all_eq(other, max_abs_diff, max_relative)
    }
}

pub trait AssertRelativeEq<Rhs: ?Sized = Self>: RelativeEq<Rhs> {
    type DebugAbsDiff: Debug;
    type DebugTolerance: Debug;
    fn debug_abs_diff(&self, other: &Rhs) -> Self::DebugAbsDiff;
    fn debug_abs_diff_tolerance(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance;
    fn debug_relative_tolerance(&self, other: &Rhs, max_relative: &Self::Tolerance) -> Self::DebugTolerance;
}

pub trait AssertRelativeAllEq<Rhs: ?Sized = Self>: RelativeAllEq<Rhs> {
    type AllDebugTolerance: Debug;
    fn debug_abs_diff_all_tolerance(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance;
    fn debug_relative_all_tolerance(&self, other: &Rhs, max_relative: &Self::AllTolerance) -> Self::AllDebugTolerance;
}

pub trait UlpsEq<Rhs: ?Sized = Self> {
    type Tolerance: Sized + Debug;
    type UlpsTolerance: Sized + Debug;
    fn ulps_eq(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_ulps: &Self::UlpsTolerance) -> bool;
    #[inline]
    fn ulps_ne(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_ulps: &Self::UlpsTolerance) -> bool {
        !self.ulps_eq(other, max_abs_diff, max_ulps)
    }
}

pub trait UlpsAllEq<Rhs: ?Sized = Self>: UlpsEq<Rhs> {
    type AllTolerance: Sized + Debug;
    type AllUlpsTolerance: Sized + Debug;
    fn ulps_all_eq(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_ulps: &Self::AllUlpsTolerance) -> bool;
    #[inline]
    fn ulps_all_ne(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_ulps: &Self::AllUlpsTolerance) -> bool {
        !self.ulps_all_eq(other, max_abs_diff, max_ulps)
    }
}

pub trait AssertUlpsEq<Rhs: ?Sized = Self>: UlpsEq<Rhs> {
    type DebugAbsDiff: Debug;
    type DebugUlpsDiff: Debug;
    type DebugTolerance: Debug;
    type DebugUlpsTolerance: Debug;
    fn debug_abs_diff(&self, other: &Rhs) -> Self::DebugAbsDiff;
    fn debug_ulps_diff(&self, other: &Rhs) -> Self::DebugUlpsDiff;
    fn debug_abs_diff_tolerance(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance;
    fn debug_ulps_tolerance(&self, other: &Rhs, max_ulps: &Self::UlpsTolerance) -> Self::DebugUlpsTolerance;
}

pub trait AssertUlpsAllEq<Rhs: ?Sized = Self>: UlpsAllEq<Rhs> {
    type AllDebugTolerance: Debug;
    type AllDebugUlpsTolerance: Debug;
    fn debug_abs_diff_all_tolerance(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance;
    fn debug_ulps_all_tolerance(&self, other: &Rhs, max_ulps: &Self::AllUlpsTolerance) -> Self::AllDebugUlpsTolerance;
}

macro_rules! abs_impl {
    ($($T:ty, $diff:expr);* $(;)?) => {$(
        impl AbsDiffEq for $T {
            type Tolerance = $T;
            #[inline]
            fn abs_diff_eq(&self, other: &$T, max_abs_diff: &$T) -> bool {
                let diff: fn($T, $T) -> $T = $diff;
                diff(*self, *other) <= *max_abs_diff
            }
        }
        impl AbsDiffAllEq for $T {
            type AllTolerance = $T;
            #[inline]
            fn abs_diff_all_eq(&self, other: &$T, max_abs_diff: &$T) -> bool {
                AbsDiffEq::abs_diff_eq(self, other, max_abs_diff)
            }
        }
        impl AssertAbsDiffEq for $T {
            type DebugAbsDiff = $T;
            type DebugTolerance = $T;
            #[inline]
            fn debug_abs_diff(&self, other: &$T) -> $T {
                let diff: fn($T, $T) -> $T = $diff;
                diff(*self, *other)
            }
            #[inline]
            fn debug_abs_diff_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T { *max_abs_diff }
        }
        impl AssertAbsDiffAllEq for $T {
            type AllDebugTolerance = $T;
            #[inline]
            fn debug_abs_diff_all_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T { *max_abs_diff }
        }
    )*};
}

#[inline] fn fabs32(x: f32) -> f32 { f32::from_bits(x.to_bits() & 0x7fff_ffff) }
#[inline] fn fabs64(x: f64) -> f64 { f64::from_bits(x.to_bits() & 0x7fff_ffff_ffff_ffff) }

abs_impl! {
    u8, |a, b| if a > b { a - b } else { b - a };
    u16, |a, b| if a > b { a - b } else { b - a };
    u32, |a, b| if a > b { a - b } else { b - a };
    u64, |a, b| if a > b { a - b } else { b - a };
    u128, |a, b| if a > b { a - b } else { b - a };
    usize, |a, b| if a > b { a - b } else { b - a };
    i8, |a, b| if a > b { a.wrapping_sub(b) } else { b.wrapping_sub(a) };
    i16, |a, b| if a > b { a.wrapping_sub(b) } else { b.wrapping_sub(a) };
    i32, |a, b| if a > b { a.wrapping_sub(b) } else { b.wrapping_sub(a) };
    i64, |a, b| if a > b { a.wrapping_sub(b) } else { b.wrapping_sub(a) };
    i128, |a, b| if a > b { a.wrapping_sub(b) } else { b.wrapping_sub(a) };
    isize, |a, b| if a > b { a.wrapping_sub(b) } else { b.wrapping_sub(a) };
    f32, |a, b| fabs32(a - b);
    f64, |a, b| fabs64(a - b);
}

macro_rules! float_impl {
    ($T:ident, $U:ident, $abs:path) => {
        impl RelativeEq for $T {
            type Tolerance = $T;
            #[inline]
            fn relative_eq(&self, other: &$T, max_abs_diff: &$T, max_relative: &$T) -> bool {
                if self == other { return true; }
                if self.is_infinite() || other.is_infinite() { return false; }
                let abs_diff = $abs(*self - *other);
                if abs_diff <= *max_abs_diff { return true; }
                let (a, b) = ($abs(*self), $abs(*other));
                let largest = if b > a { b } else { a };
                abs_diff <= largest * *max_relative
            }
        }
        impl RelativeAllEq for $T {
            type AllTolerance = $T;
            #[inline]
            fn relative_all_eq(&self, other: &$T, max_abs_diff: &$T, max_relative: &$T) -> bool {
                RelativeEq::relative_eq(self, other, max_abs_diff, max_relative)
            }
        }
        impl AssertRelativeEq for $T {
            type DebugAbsDiff = $T;
            type DebugTolerance = $T;
            #[inline] fn debug_abs_diff(&self, other: &$T) -> $T { $abs(*self - *other) }
            #[inline] fn debug_abs_diff_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T { *max_abs_diff }
            #[inline]
            fn debug_relative_tolerance(&self, other: &$T, max_relative: &$T) -> $T {
                let (a, b) = ($abs(*self), $abs(*other));
                let largest = if b > a { b } else { a };
                largest * *max_relative
            }
        }
        impl AssertRelativeAllEq for $T {
            type AllDebugTolerance = $T;
            #[inline] fn debug_abs_diff_all_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T { *max_abs_diff }
            #[inline]
            fn debug_relative_all_tolerance(&self, other: &$T, max_relative: &$T) -> $T {
                AssertRelativeEq::debug_relative_tolerance(self, other, max_relative)
            }
        }
        impl UlpsEq for $T {
            type Tolerance = $T;
            type UlpsTolerance = $U;
            #[inline]
            fn ulps_eq(&self, other: &$T, max_abs_diff: &$T, max_ulps: &$U) -> bool {
                if self == other { return true; }
                if self.is_nan() || other.is_nan() { return false; }
                if $abs(*self - *other) <= *max_abs_diff { return true; }
                match AssertUlpsEq::debug_ulps_diff(self, other) {
                    Some(diff) => diff <= *max_ulps,
                    None => false,
                }
            }
        }
        impl UlpsAllEq for $T {
            type AllTolerance = $T;
            type AllUlpsTolerance = $U;
            #[inline]
            fn ulps_all_eq(&self, other: &$T, max_abs_diff: &$T, max_ulps: &$U) -> bool {
                UlpsEq::ulps_eq(self, other, max_abs_diff, max_ulps)
            }
        }
        impl AssertUlpsEq for $T {
            type DebugAbsDiff = $T;
            type DebugUlpsDiff = Option<$U>;
            type DebugTolerance = $T;
            type DebugUlpsTolerance = $U;
            #[inline] fn debug_abs_diff(&self, other: &$T) -> $T { $abs(*self - *other) }
            #[inline]
            fn debug_ulps_diff(&self, other: &$T) -> Option<$U> {
                if self == other {
                    Some(0)
                } else if self.is_nan() || other.is_nan() {
                    None
                } else if self.is_sign_positive() != other.is_sign_positive() {
                    None
                } else {
                    let (a, b) = (self.to_bits(), other.to_bits());
                    Some(if a > b { a - b } else { b - a })
                }
            }
            #[inline] fn debug_abs_diff_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T { *max_abs_diff }
            #[inline] fn debug_ulps_tolerance(&self, _other: &$T, max_ulps: &$U) -> $U { *max_ulps }
        }
        impl AssertUlpsAllEq for $T {
            type AllDebugTolerance = $T;
            type AllDebugUlpsTolerance = $U;
            #[inline] fn debug_abs_diff_all_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T { *max_abs_diff }
            #[inline] fn debug_ulps_all_tolerance(&self, _other: &$T, max_ulps: &$U) -> $U { *max_ulps }
        }
    };
}
float_impl!(f32, u32, fabs32);
float_impl!(f64, u64, fabs64);

// References compare what they refer to.
macro_rules! ref_impl {
    ($($R:tt)*) => {
        impl<T: ?Sized + AbsDiffEq> AbsDiffEq for $($R)* T {
            type Tolerance = T::Tolerance;
            #[inline] fn abs_diff_eq(&self, other: &Self, t: &Self::Tolerance) -> bool { T::abs_diff_eq(*self, *other, t) }
        }
        impl<T: ?Sized + AbsDiffAllEq> AbsDiffAllEq for $($R)* T {
            type AllTolerance = T::AllTolerance;
            #[inline] fn abs_diff_all_eq(&self, other: &Self, t: &Self::AllTolerance) -> bool { T::abs_diff_all_eq(*self, *other, t) }
        }
        impl<T: ?Sized + AssertAbsDiffEq> AssertAbsDiffEq for $($R)* T {
            type DebugAbsDiff = T::DebugAbsDiff;
            type DebugTolerance = T::DebugTolerance;
            #[inline] fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff { T::debug_abs_diff(*self, *other) }
            #[inline] fn debug_abs_diff_tolerance(&self, other: &Self, t: &Self::Tolerance) -> Self::DebugTolerance { T::debug_abs_diff_tolerance(*self, *other, t) }
        }
        impl<T: ?Sized + AssertAbsDiffAllEq> AssertAbsDiffAllEq for $($R)* T {
            type AllDebugTolerance = T::AllDebugTolerance;
            #[inline] fn debug_abs_diff_all_tolerance(&self, other: &Self, t: &Self::AllTolerance) -> Self::AllDebugTolerance { T::debug_abs_diff_all_tolerance(*self, *other, t) }
        }
        impl<T: ?Sized + RelativeEq> RelativeEq for $($R)* T {
            type Tolerance = T::Tolerance;
            #[inline] fn relative_eq(&self, other: &Self, t: &Self::Tolerance, r: &Self::Tolerance) -> bool { T::relative_eq(*self, *other, t, r) }
        }
        impl<T: ?Sized + RelativeAllEq> RelativeAllEq for $($R)* T {
            type AllTolerance = T::AllTolerance;
            #[inline] fn relative_all_eq(&self, other: &Self, t: &Self::AllTolerance, r: &Self::AllTolerance) -> bool { T::relative_all_eq(*self, *other, t, r) }
        }
        impl<T: ?Sized + AssertRelativeEq> AssertRelativeEq for $($R)* T {
            type DebugAbsDiff = T::DebugAbsDiff;
            type DebugTolerance = T::DebugTolerance;
            #[inline] fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff { T::debug_abs_diff(*self, *other) }
            #[inline] fn debug_abs_diff_tolerance(&self, other: &Self, t: &Self::Tolerance) -> Self::DebugTolerance { T::debug_abs_diff_tolerance(*self, *other, t) }
            #[inline] fn debug_relative_tolerance(&self, other: &Self, t: &Self::Tolerance) -> Self::DebugTolerance { T::debug_relative_tolerance(*self, *other, t) }
        }
        impl<T: ?Sized + AssertRelativeAllEq> AssertRelativeAllEq for $($R)* T {
            type AllDebugTolerance = T::AllDebugTolerance;
            #[inline] fn debug_abs_diff_all_tolerance(&self, other: &Self, t: &Self::AllTolerance) -> Self::AllDebugTolerance { T::debug_abs_diff_all_tolerance(*self, *other, t) }
            #[inline] fn debug_relative_all_tolerance(&self, other: &Self, t: &Self::AllTolerance) -> Self::AllDebugTolerance { T::debug_relative_all_tolerance(*self, *other, t) }
        }
        impl<T: ?Sized + UlpsEq> UlpsEq for $($R)* T {
            type Tolerance = T::Tolerance;
            type UlpsTolerance = T::UlpsTolerance;
            #[inline] fn ulps_eq(&self, other: &Self, t: &Self::Tolerance, r: &Self::UlpsTolerance) -> bool { T::ulps_eq(*self, *other, t, r) }
        }
        impl<T: ?Sized + UlpsAllEq> UlpsAllEq for $($R)* T {
            type AllTolerance = T::AllTolerance;
            type AllUlpsTolerance = T::AllUlpsTolerance;
            #[inline] fn ulps_all_eq(&self, other: &Self, t: &Self::AllTolerance, r: &Self::AllUlpsTolerance) -> bool { T::ulps_all_eq(*self, *other, t, r) }
        }
        impl<T: ?Sized + AssertUlpsEq> AssertUlpsEq for $($R)* T {
            type DebugAbsDiff = T::DebugAbsDiff;
            type DebugUlpsDiff = T::DebugUlpsDiff;
            type DebugTolerance = T::DebugTolerance;
            type DebugUlpsTolerance = T::DebugUlpsTolerance;
            #[inline] fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff { T::debug_abs_diff(*self, *other) }
            #[inline] fn debug_ulps_diff(&self, other: &Self) -> Self::DebugUlpsDiff { T::debug_ulps_diff(*self, *other) }
            #[inline] fn debug_abs_diff_tolerance(&self, other: &Self, t: &Self::Tolerance) -> Self::DebugTolerance { T::debug_abs_diff_tolerance(*self, *other, t) }
            #[inline] fn debug_ulps_tolerance(&self, other: &Self, t: &Self::UlpsTolerance) -> Self::DebugUlpsTolerance { T::debug_ulps_tolerance(*self, *other, t) }
        }
        impl<T: ?Sized + AssertUlpsAllEq> AssertUlpsAllEq for $($R)* T {
            type AllDebugTolerance = T::AllDebugTolerance;
            type AllDebugUlpsTolerance = T::AllDebugUlpsTolerance;
            #[inline] fn debug_abs_diff_all_tolerance(&self, other: &Self, t: &Self::AllTolerance) -> Self::AllDebugTolerance { T::debug_abs_diff_all_tolerance(*self, *other, t) }
            #[inline] fn debug_ulps_all_tolerance(&self, other: &Self, t: &Self::AllUlpsTolerance) -> Self::AllDebugUlpsTolerance { T::debug_ulps_all_tolerance(*self, *other, t) }
        }
    };
}
ref_impl!(&);

// Arrays compare elementwise.
impl<T: AbsDiffEq, const N: usize> AbsDiffEq for [T; N]
where
    T::Tolerance: Sized,
{
    type Tolerance = [T::Tolerance; N];
    #[inline]
    fn abs_diff_eq(&self, other: &Self, t: &Self::Tolerance) -> bool {
        (0..N).all(|i| self[i].abs_diff_eq(&other[i], &t[i]))
    }
}
impl<T: AbsDiffAllEq, const N: usize> AbsDiffAllEq for [T; N]
where
    T::Tolerance: Sized,
{
    type AllTolerance = T::AllTolerance;
    #[inline]
    fn abs_diff_all_eq(&self, other: &Self, t: &Self::AllTolerance) -> bool {
        (0..N).all(|i| self[i].abs_diff_all_eq(&other[i], t))
    }
}
impl<T: AssertAbsDiffEq, const N: usize> AssertAbsDiffEq for [T; N]
where
    T::Tolerance: Sized,
{
    type DebugAbsDiff = [T::DebugAbsDiff; N];
    type DebugTolerance = [T::DebugTolerance; N];
    #[inline]
    fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff {
        core::array::from_fn(|i| self[i].debug_abs_diff(&other[i]))
    }
    #[inline]
    fn debug_abs_diff_tolerance(&self, other: &Self, t: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_tolerance(&other[i], &t[i]))
    }
}
impl<T: AssertAbsDiffAllEq, const N: usize> AssertAbsDiffAllEq for [T; N]
where
    T::Tolerance: Sized,
{
    type AllDebugTolerance = [T::AllDebugTolerance; N];
    #[inline]
    fn debug_abs_diff_all_tolerance(&self, other: &Self, t: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_all_tolerance(&other[i], t))
    }
}
impl<T: RelativeEq, const N: usize> RelativeEq for [T; N]
where
    T::Tolerance: Sized,
{
    type Tolerance = [T::Tolerance; N];
    #[inline]
    fn relative_eq(&self, other: &Self, t: &Self::Tolerance, r: &Self::Tolerance) -> bool {
        (0..N).all(|i| self[i].relative_eq(&other[i], &t[i], &r[i]))
    }
}
impl<T: RelativeAllEq, const N: usize> RelativeAllEq for [T; N]
where
    T::Tolerance: Sized,
{
    type AllTolerance = T::AllTolerance;
    #[inline]
    fn relative_all_eq(&self, other: &Self, t: &Self::AllTolerance, r: &Self::AllTolerance) -> bool {
        (0..N).all(|i| self[i].relative_all_eq(&other[i], t, r))
    }
}
impl<T: AssertRelativeEq, const N: usize> AssertRelativeEq for [T; N]
where
    T::Tolerance: Sized,
{
    type DebugAbsDiff = [T::DebugAbsDiff; N];
    type DebugTolerance = [T::DebugTolerance; N];
    #[inline]
    fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff {
        core::array::from_fn(|i| self[i].debug_abs_diff(&other[i]))
    }
    #[inline]
    fn debug_abs_diff_tolerance(&self, other: &Self, t: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_tolerance(&other[i], &t[i]))
    }
    #[inline]
    fn debug_relative_tolerance(&self, other: &Self, t: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_relative_tolerance(&other[i], &t[i]))
    }
}
impl<T: AssertRelativeAllEq, const N: usize> AssertRelativeAllEq for [T; N]
where
    T::Tolerance: Sized,
{
    type AllDebugTolerance = [T::AllDebugTolerance; N];
    #[inline]
    fn debug_abs_diff_all_tolerance(&self, other: &Self, t: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_all_tolerance(&other[i], t))
    }
    #[inline]
    fn debug_relative_all_tolerance(&self, other: &Self, t: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_relative_all_tolerance(&other[i], t))
    }
}
impl<T: UlpsEq, const N: usize> UlpsEq for [T; N]
where
    T::Tolerance: Sized,
    T::UlpsTolerance: Sized,
{
    type Tolerance = [T::Tolerance; N];
    type UlpsTolerance = [T::UlpsTolerance; N];
    #[inline]
    fn ulps_eq(&self, other: &Self, t: &Self::Tolerance, r: &Self::UlpsTolerance) -> bool {
        (0..N).all(|i| self[i].ulps_eq(&other[i], &t[i], &r[i]))
    }
}
impl<T: UlpsAllEq, const N: usize> UlpsAllEq for [T; N]
where
    T::Tolerance: Sized,
    T::UlpsTolerance: Sized,
{
    type AllTolerance = T::AllTolerance;
    type AllUlpsTolerance = T::AllUlpsTolerance;
    #[inline]
    fn ulps_all_eq(&self, other: &Self, t: &Self::AllTolerance, r: &Self::AllUlpsTolerance) -> bool {
        (0..N).all(|i| self[i].ulps_all_eq(&other[i], t, r))
    }
}
impl<T: AssertUlpsEq, const N: usize> AssertUlpsEq for [T; N]
where
    T::Tolerance: Sized,
    T::UlpsTolerance: Sized,
{
    type DebugAbsDiff = [T::DebugAbsDiff; N];
    type DebugUlpsDiff = [T::DebugUlpsDiff; N];
    type DebugTolerance = [T::DebugTolerance; N];
    type DebugUlpsTolerance = [T::DebugUlpsTolerance; N];
    #[inline]
    fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff {
        core::array::from_fn(|i| self[i].debug_abs_diff(&other[i]))
    }
    #[inline]
    fn debug_ulps_diff(&self, other: &Self) -> Self::DebugUlpsDiff {
        core::array::from_fn(|i| self[i].debug_ulps_diff(&other[i]))
    }
    #[inline]
    fn debug_abs_diff_tolerance(&self, other: &Self, t: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_tolerance(&other[i], &t[i]))
    }
    #[inline]
    fn debug_ulps_tolerance(&self, other: &Self, t: &Self::UlpsTolerance) -> Self::DebugUlpsTolerance {
        core::array::from_fn(|i| self[i].debug_ulps_tolerance(&other[i], &t[i]))
    }
}
impl<T: AssertUlpsAllEq, const N: usize> AssertUlpsAllEq for [T; N]
where
    T::Tolerance: Sized,
    T::UlpsTolerance: Sized,
{
    type AllDebugTolerance = [T::AllDebugTolerance; N];
    type AllDebugUlpsTolerance = [T::AllDebugUlpsTolerance; N];
    #[inline]
    fn debug_abs_diff_all_tolerance(&self, other: &Self, t: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_all_tolerance(&other[i], t))
    }
    #[inline]
    fn debug_ulps_all_tolerance(&self, other: &Self, t: &Self::AllUlpsTolerance) -> Self::AllDebugUlpsTolerance {
        core::array::from_fn(|i| self[i].debug_ulps_all_tolerance(&other[i], t))
    }
}

#[macro_export]
macro_rules! abs_diff_eq {
    ($l:expr, $r:expr, abs_diff <= $t:expr $(,)?) => { $crate::AbsDiffEq::abs_diff_eq(&$l, &$r, &$t) };
    ($l:expr, $r:expr, abs_diff_all <= $t:expr $(,)?) => { $crate::AbsDiffAllEq::abs_diff_all_eq(&$l, &$r, &$t) };
}
#[macro_export]
macro_rules! abs_diff_ne {
    ($l:expr, $r:expr, abs_diff <= $t:expr $(,)?) => { $crate::AbsDiffEq::abs_diff_ne(&$l, &$r, &$t) };
    ($l:expr, $r:expr, abs_diff_all <= $t:expr $(,)?) => { $crate::AbsDiffAllEq::abs_diff_all_ne(&$l, &$r, &$t) };
}
#[macro_export]
macro_rules! relative_eq {
    ($l:expr, $r:expr, abs_diff <= $t:expr, relative <= $q:expr $(,)?) => { $crate::RelativeEq::relative_eq(&$l, &$r, &$t, &$q) };
    ($l:expr, $r:expr, abs_diff_all <= $t:expr, relative_all <= $q:expr $(,)?) => { $crate::RelativeAllEq::relative_all_eq(&$l, &$r, &$t, &$q) };
}
#[macro_export]
macro_rules! relative_ne {
    ($l:expr, $r:expr, abs_diff <= $t:expr, relative <= $q:expr $(,)?) => { $crate::RelativeEq::relative_ne(&$l, &$r, &$t, &$q) };
    ($l:expr, $r:expr, abs_diff_all <= $t:expr, relative_all <= $q:expr $(,)?) => { $crate::RelativeAllEq::relative_all_ne(&$l, &$r, &$t, &$q) };
}
#[macro_export]
macro_rules! ulps_eq {
    ($l:expr, $r:expr, abs_diff <= $t:expr, ulps <= $q:expr $(,)?) => { $crate::UlpsEq::ulps_eq(&$l, &$r, &$t, &$q) };
    ($l:expr, $r:expr, abs_diff_all <= $t:expr, ulps_all <= $q:expr $(,)?) => { $crate::UlpsAllEq::ulps_all_eq(&$l, &$r, &$t, &$q) };
}
#[macro_export]
macro_rules! ulps_ne {
    ($l:expr, $r:expr, abs_diff <= $t:expr, ulps <= $q:expr $(,)?) => { $crate::UlpsEq::ulps_ne(&$l, &$r, &$t, &$q) };
    ($l:expr, $r:expr, abs_diff_all <= $t:expr, ulps_all <= $q:expr $(,)?) => { $crate::UlpsAllEq::ulps_all_ne(&$l, &$r, &$t, &$q) };
}
macro_rules! assert_macro {
    ($($d:tt $name:ident $inner:ident $word:literal;)*) => {$(
        #[macro_export]
        macro_rules! $name {
            ($d l:expr, $d r:expr, $d($d rest:tt)*) => {
                match (&$d l, &$d r) {
                    (l, r) => {
                        if !$crate::$inner!(*l, *r, $d($d rest)*) {
                            panic!("assertion `{}` failed\n  left: {:?}\n right: {:?}\n tolerance: {}", $word, l, r, stringify!($d($d rest)*));
                        }
                    }
                }
            };
        }
    )*};
}
assert_macro! {
    $ assert_abs_diff_eq abs_diff_eq "abs_diff_eq";
    $ assert_abs_diff_ne abs_diff_ne "abs_diff_ne";
    $ assert_relative_eq relative_eq "relative_eq";
    $ assert_relative_ne relative_ne "relative_ne";
    $ assert_ulps_eq ulps_eq "ulps_eq";
    $ assert_ulps_ne ulps_ne "ulps_ne";
}
