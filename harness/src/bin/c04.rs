//! C04: numeric casts keep the value or are refused; container casts are all-or-nothing.
use cglinalg_core::*;
use cglinalg_numeric::{cast, try_cast};
use cglmc::*;

/// Exact value of an integer: sign and magnitude.
#[derive(Copy, Clone, PartialEq, Debug)]
struct Z(bool, u128);
trait Int: Copy + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    const NAME: &'static str;
    const BITS: u32;
    const SIGNED: bool;
    fn z(self) -> Z;
    fn values(full: bool) -> Vec<Self>;
}
macro_rules! int {
    ($($t:ident $signed:literal)*) => {$(
        impl Int for $t {
            const NAME: &'static str = stringify!($t);
            const BITS: u32 = <$t>::BITS;
            const SIGNED: bool = $signed;
            #[allow(unused_comparisons)]
            fn z(self) -> Z {
                if self < 0 { Z(true, (self as i128).unsigned_abs()) } else { Z(false, self as u128) }
            }
            fn values(full: bool) -> Vec<Self> {
                let mut v: Vec<$t> = Vec::new();
                if <$t>::BITS <= 8 || (<$t>::BITS == 16 && full) {
                    let mut x = <$t>::MIN;
                    loop { v.push(x); if x == <$t>::MAX { break; } x += 1; }
                    return v;
                }
                for k in 0..<$t>::BITS {
                    let p = (1 as $t).wrapping_shl(k);
                    for d in 0..=2 as $t {
                        v.push(p.wrapping_add(d));
                        v.push(p.wrapping_sub(d));
                        v.push((0 as $t).wrapping_sub(p).wrapping_add(d));
                        v.push((0 as $t).wrapping_sub(p).wrapping_sub(d));
                    }
                }
                for d in 0..=9 as $t { v.push(<$t>::MIN + d); v.push(<$t>::MAX - d); v.push(d); v.push(d.wrapping_mul(1000003 as u64 as $t)); }
                v.sort(); v.dedup();
                v
            }
        }
    )*};
}
int!(u8 false u16 false u32 false u64 false u128 false usize false i8 true i16 true i32 true i64 true i128 true isize true);

fn fits<T: Int>(z: Z) -> bool {
    if z.0 && z.1 != 0 {
        T::SIGNED && z.1 <= 1u128 << (T::BITS - 1)
    } else if T::SIGNED {
        z.1 <= (1u128 << (T::BITS - 1)) - 1
    } else {
        T::BITS == 128 || z.1 <= (1u128 << T::BITS) - 1
    }
}
/// 2^bits etc. as exact floats.
fn float_fits<T: Int>(x: f64) -> bool {
    if !x.is_finite() {
        return false;
    }
    let t = x.trunc();
    let hi = if T::SIGNED { 2f64.powi(T::BITS as i32 - 1) } else { 2f64.powi(T::BITS as i32) };
    let lo = if T::SIGNED { -(2f64.powi(T::BITS as i32 - 1)) } else { 0.0 };
    t >= lo && t < hi
}
fn float_values(full: bool) -> Vec<f64> {
    let mut v = vec![0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e-300, -1e-300, f64::MIN_POSITIVE];
    for k in 0..130 {
        let p = 2f64.powi(k);
        for d in [0.0, 0.25, 0.5, 0.75, 0.999, 1.0, 1.5, 2.0] {
            for x in [p + d, p - d, -p + d, -p - d] {
                v.push(x);
            }
        }
        for m in [1.0 + f64::EPSILON, 1.0 - f64::EPSILON, 1.25, 1.5, 1.9375] {
            v.push(p * m);
            v.push(-p * m);
            v.push(m / p);
            v.push(-m / p);
        }
    }
    let n = if full { 40000 } else { 4000 };
    for i in -n..=n {
        v.push(i as f64 / 8.0);
    }
    v
}
fn int_to_int<A: Int + cglinalg_numeric::SimdCast, B: Int + cglinalg_numeric::SimdCast>(s: &mut Sec, full: bool) {
    for x in A::values(full) {
        s.case(|| format!("{x:?}{} -> {}", A::NAME, B::NAME), |c| {
            let z = x.z();
            let r: Option<B> = try_cast(x);
            match r {
                Some(y) => {
                    c.same("cast keeps the value", y.z(), z);
                    let w: B = cast(x);
                    c.same("the panicking form gives the same value", w.z(), z);
                }
                None => {
                    c.truth("cast refused only when the value does not fit", !fits::<B>(z));
                    c.panics("the panicking form panics", || {
                        let _: B = cast(x);
                    });
                }
            }
            c.same("accepted exactly when it fits", r.is_some(), fits::<B>(z));
        });
    }
}
macro_rules! all_ints {
    ($m:ident, $($x:tt)*) => { $m!(u8 $($x)*); $m!(u16 $($x)*); $m!(u32 $($x)*); $m!(u64 $($x)*); $m!(u128 $($x)*); $m!(usize $($x)*);
        $m!(i8 $($x)*); $m!(i16 $($x)*); $m!(i32 $($x)*); $m!(i64 $($x)*); $m!(i128 $($x)*); $m!(isize $($x)*); };
}

/// All subsets of positions hold an unrepresentable value: the cast succeeds only for the empty subset.
macro_rules! container {
    ($s:ident, $name:expr, $n:expr, $good:expr, $bad:expr, $build:expr, $cast:expr, $S:ty, $T:ty) => {
        for mask in 0u32..(1u32 << $n) {
            let mut a = [$good[0]; $n];
            for i in 0..$n {
                a[i] = if mask & (1 << i) != 0 { $bad[i % $bad.len()] } else { $good[i % $good.len()] };
            }
            $s.case(|| format!("{} {:?}", $name, a), |c| {
                let v = $build(a);
                let r = $cast(&v);
                c.same("accepted exactly when every component fits", r.is_some(), mask == 0);
                if let Some(w) = r {
                    let want: Vec<f64> = a.iter().map(|x| (*x as $T) as f64).collect();
                    c.eq("components", w, want);
                }
            });
        }
    };
}

fn main() {
    let ctx = Ctx::start("C04");
    let full = ctx.thorough();
    ctx.bound("integer sources: every value of the 8-bit types (16-bit too in the thorough tier), all powers of two +-2, extremes; every ordered pair of the 12 integer types");
    ctx.bound("float sources: 130 binades with boundary offsets, multiples of 1/8, NaN and infinities, to each of the 12 integer types; containers: every subset of positions unrepresentable, all shapes up to 4x4 and four wider ones, vectors up to 7 and points up to 5 components");
    macro_rules! from { ($a:ident) => { all_ints!(pair, $a); }; }
    macro_rules! pair { ($b:ident $a:ident) => {
        ctx.section(concat!(stringify!($a), "-to-", stringify!($b)), |s| int_to_int::<$a, $b>(s, full));
    }; }
    all_ints!(from,);
    let fv = float_values(full);
    macro_rules! float_int { ($b:ident) => {
        ctx.section(concat!("f64-to-", stringify!($b)), |s| for &x in &fv {
            s.case(|| format!("{x:?}f64 -> {}", stringify!($b)), |c| {
                let r: Option<$b> = try_cast(x);
                c.same("accepted exactly when the integer part fits", r.is_some(), float_fits::<$b>(x));
                if let Some(y) = r { c.same("integer part", y, x.trunc() as $b); }
            });
            let x = x as f32;
            s.case(|| format!("{x:?}f32 -> {}", stringify!($b)), |c| {
                let r: Option<$b> = try_cast(x);
                c.same("accepted exactly when the integer part fits", r.is_some(), float_fits::<$b>(x as f64));
                if let Some(y) = r { c.same("integer part", y, x.trunc() as $b); }
            });
        });
        ctx.section(concat!(stringify!($b), "-to-float"), |s| for x in <$b as Int>::values(full) {
            s.case(|| format!("{x:?}{} -> float", stringify!($b)), |c| {
                let r: Option<f64> = try_cast(x);
                c.eq("nearest f64", r, Some(x as f64));
                let r: Option<f32> = try_cast(x);
                c.eq("nearest f32", r, Some(x as f32));
                let r: f64 = cast(x);
                c.eq("panicking form", r, x as f64);
            });
        });
    }; }
    all_ints!(float_int,);
    ctx.section("float-to-float", |s| {
        for &x in &fv {
            s.case(|| format!("{x:?}"), |c| {
                let r: Option<f64> = try_cast(x);
                c.bits("f64 to f64", r, Some(x));
                if !x.is_finite() || x.abs() <= f32::MAX as f64 {
                    let r: Option<f32> = try_cast(x);
                    c.bits("f64 to f32", r, Some(x as f32));
                    let y = x as f32;
                    let r: Option<f64> = try_cast(y);
                    c.bits("f32 to f64", r, Some(y as f64));
                }
            });
        }
    });
    if full {
        // every f32 bit pattern to four integer types
        ctx.par("every-f32", 1 << 16, |hi, s| {
            s.case(|| format!("f32 bit patterns {hi:#06x}????"), |c| {
                let mut ok = true;
                let mut bad = 0.0f32;
                for lo in 0..(1u32 << 16) {
                    let x = f32::from_bits(((hi as u32) << 16) | lo);
                    macro_rules! t { ($($b:ident)*) => {$(
                        let r: Option<$b> = try_cast(x);
                        let f = float_fits::<$b>(x as f64);
                        if r.is_some() != f || (f && r != Some(x.trunc() as $b)) { ok = false; bad = x; }
                    )*}; }
                    t!(i8 u8 i32 u64 i128);
                }
                c.truth_with("value kept or refused for all 65,536 patterns", ok, || format!("fails at {bad:?}"));
            });
        });
    }
    let good_i: &[i32] = &[3, -7, 100, 0, 127, -128, 55, 1];
    let bad_i: &[i32] = &[128, -129, 30000, 256, -30000];
    let good_f: &[f64] = &[1.5, -2.75, 0.0, 127.9, -128.5, 3.0];
    let bad_f: &[f64] = &[300.0, f64::NAN, -129.0, f64::INFINITY, 128.0];
    ctx.section("vectors", |s| {
        macro_rules! v { ($($n:literal)*) => {$(
            container!(s, concat!("vector", $n), $n, good_i, bad_i, |a: [i32; $n]| Vector::<i32, $n>::from(a), |v: &Vector<i32, $n>| v.try_cast::<i8>(), i32, i8);
            container!(s, concat!("vector f", $n), $n, good_f, bad_f, |a: [f64; $n]| Vector::<f64, $n>::from(a), |v: &Vector<f64, $n>| v.try_cast::<i8>(), f64, i8);
        )*}; }
        v!(1 2 3 4 5 7);
    });
    ctx.section("points", |s| {
        macro_rules! v { ($($n:literal)*) => {$(
            container!(s, concat!("point", $n), $n, good_i, bad_i, |a: [i32; $n]| Point::<i32, $n>::from(a), |v: &Point<i32, $n>| v.try_cast::<i8>(), i32, i8);
            container!(s, concat!("point f", $n), $n, good_f, bad_f, |a: [f64; $n]| Point::<f64, $n>::from(a), |v: &Point<f64, $n>| v.try_cast::<i8>(), f64, i8);
        )*}; }
        v!(1 2 3 4 5);
    });
    ctx.section("complex-quaternion", |s| {
        container!(s, "complex", 2, good_i, bad_i, |a: [i32; 2]| Complex::new(a[0], a[1]), |v: &Complex<i32>| v.try_cast::<i8>(), i32, i8);
        container!(s, "complex f", 2, good_f, bad_f, |a: [f64; 2]| Complex::new(a[0], a[1]), |v: &Complex<f64>| v.try_cast::<i8>(), f64, i8);
        container!(s, "quaternion", 4, good_i, bad_i, |a: [i32; 4]| Quaternion::new(a[0], a[1], a[2], a[3]), |v: &Quaternion<i32>| v.try_cast::<i8>(), i32, i8);
        container!(s, "quaternion f", 4, good_f, bad_f, |a: [f64; 4]| Quaternion::new(a[0], a[1], a[2], a[3]), |v: &Quaternion<f64>| v.try_cast::<i8>(), f64, i8);
    });
    ctx.section("matrices", |s| {
        macro_rules! m { ($($r:literal $c:literal;)*) => {$(
            container!(s, concat!("matrix", $r, "x", $c), ($r * $c), good_i, bad_i,
                |a: [i32; $r * $c]| { let mut d = [[0; $r]; $c]; for i in 0..($r * $c) { d[i / $r][i % $r] = a[i]; } Matrix::<i32, $r, $c>::from(d) },
                |v: &Matrix<i32, $r, $c>| v.try_cast::<i8>(), i32, i8);
        )*}; }
        m!(1 1; 1 2; 1 3; 1 4; 2 1; 2 2; 2 3; 2 4; 3 1; 3 2; 3 3; 3 4; 4 1; 4 2; 4 3; 4 4; 5 2; 2 5; 3 5; 1 6;);
    });
    ctx.finish();
}
