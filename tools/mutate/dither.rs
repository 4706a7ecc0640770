// Drop-in replacement for mutsw.rs: every inexact operation may land on the other neighbouring float (DITH_MODE=0), or every
// division becomes a multiplication by the reciprocal (DITH_MODE=1); DITH_SEED picks the pattern. Used to look for false alarms.
#![allow(missing_docs)]
extern crate std;
use core::ops::*;
use core::sync::atomic::{AtomicU32, Ordering::Relaxed};
static SEED: AtomicU32 = AtomicU32::new(u32::MAX);
static MODE: AtomicU32 = AtomicU32::new(0);
static ONLY: AtomicU32 = AtomicU32::new(0);
#[inline]
fn seed() -> u32 {
    let s = SEED.load(Relaxed);
    if s != u32::MAX { return s; }
    let g = |n: &str| std::env::var(n).ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    MODE.store(g("DITH_MODE"), Relaxed);
    ONLY.store(g("DITH_ONLY"), Relaxed);
    let k = g("DITH_SEED");
    SEED.store(k, Relaxed);
    k
}
fn hash(k: u32, a: u64, b: u64, s: u32) -> u64 {
    let mut h = 0x9E3779B97F4A7C15u64 ^ ((k as u64) << 32 | s as u64);
    for x in [a, b] { h = (h ^ x).wrapping_mul(0xff51afd7ed558ccd); h ^= h >> 33; }
    h = h.wrapping_mul(0xc4ceb9fe1a85ec53); h ^ h >> 33
}
#[derive(Clone, Copy, PartialEq)]
enum Op { Add, Sub, Mul, Div }
/// sign of (exact - rounded): -1, 0, 1
fn err64(op: Op, a: f64, b: f64, r: f64) -> i32 {
    if !r.is_finite() || r == 0.0 { return 0; }
    let e = match op {
        Op::Add | Op::Sub => { let b = if op == Op::Sub { -b } else { b }; let t = r - a; (a - (r - t)) + (b - t) }
        Op::Mul => a.mul_add(b, -r),
        Op::Div => { let x = (-r).mul_add(b, a); if b < 0.0 { -x } else { x } }
    };
    if e > 0.0 { 1 } else if e < 0.0 { -1 } else { 0 }
}
fn step64(r: f64, e: i32) -> f64 { if e > 0 { r.next_up() } else if e < 0 { r.next_down() } else { r } }
fn step32(r: f32, e: i32) -> f32 { if e > 0 { r.next_up() } else if e < 0 { r.next_down() } else { r } }
fn err32(op: Op, a: f32, b: f32, r: f32) -> i32 {
    if !r.is_finite() || r == 0.0 { return 0; }
    let (a, b) = (a as f64, b as f64);
    let x = match op { Op::Add => a + b, Op::Sub => a - b, Op::Mul => a * b, Op::Div => a / b };
    let e = x - r as f64;
    if e > 0.0 { 1 } else if e < 0.0 { -1 } else { 0 }
}
fn alter<A, B, R>(k: u32, op: Op, a: (&'static str, u64), b: (&'static str, u64), r: &mut R) {
    let s = seed();
    if s == 0 || a.0 != b.0 || core::any::type_name::<R>() != a.0 { return; }
    let o = ONLY.load(Relaxed);
    if o != 0 && o != k { return; }
    let m = MODE.load(Relaxed);
    if m == 0 {
        if hash(k, a.1, b.1, s) & 1 == 0 { return; }
        unsafe { if a.0 == "f64" {
            let q = &mut *(r as *mut R as *mut f64);
            *q = step64(*q, err64(op, f64::from_bits(a.1), f64::from_bits(b.1), *q));
        } else {
            let q = &mut *(r as *mut R as *mut f32);
            *q = step32(*q, err32(op, f32::from_bits(a.1 as u32), f32::from_bits(b.1 as u32), *q));
        } }
    } else if m == 1 && op == Op::Div {
        unsafe { if a.0 == "f64" {
            let (x, y) = (f64::from_bits(a.1), f64::from_bits(b.1));
            let i = 1.0 / y; let z = x * i; if i.is_finite() && i != 0.0 { *(r as *mut R as *mut f64) = z; }
        } else {
            let (x, y) = (f32::from_bits(a.1 as u32), f32::from_bits(b.1 as u32));
            let i = 1.0 / y; let z = x * i; if i.is_finite() && i != 0.0 { *(r as *mut R as *mut f32) = z; }
        } }
    }
}
#[inline]
fn get<A>(a: &A) -> (&'static str, u64) {
    match core::any::type_name::<A>() {
        "f64" => ("f64", unsafe { *(a as *const A as *const u64) }),
        "f32" => ("f32", unsafe { *(a as *const A as *const u32) } as u64),
        "&f64" => ("f64", unsafe { **(a as *const A as *const *const u64) }),
        "&f32" => ("f32", unsafe { **(a as *const A as *const *const u32) } as u64),
        _ => ("", 0),
    }
}
macro_rules! two {
    ($($n:ident $T:ident $f:ident $o:ident)*) => {$(
        #[inline]
        pub fn $n<A, B>(k: u32, a: A, b: B) -> <A as $T<B>>::Output where A: $T<B> {
            let (x, y) = (get(&a), get(&b));
            let mut r = a.$f(b);
            if !x.0.is_empty() { alter::<A, B, _>(k, Op::$o, x, y, &mut r); }
            r
        }
    )*};
}
two!(add Add add Add  sub Sub sub Sub  mul Mul mul Mul  div Div div Div);
macro_rules! assign {
    ($($n:ident $T:ident $f:ident $o:ident)*) => {$(
        #[inline]
        pub fn $n<A, B>(k: u32, a: &mut A, b: B) where A: $T<B> {
            let (x, y) = (get(&*a), get(&b));
            a.$f(b);
            if !x.0.is_empty() { alter::<A, B, _>(k, Op::$o, x, y, a); }
        }
    )*};
}
assign!(add_assign AddAssign add_assign Add  sub_assign SubAssign sub_assign Sub  mul_assign MulAssign mul_assign Mul  div_assign DivAssign div_assign Div);
pub fn bitand_assign(_k: u32, a: &mut bool, b: bool) { *a &= b }
macro_rules! cmp { ($($n:ident $f:ident)*) => {$( #[inline] pub fn $n<A: PartialOrd<B>, B>(_k: u32, a: &A, b: &B) -> bool { a.$f(b) } )*}; }
cmp!(lt lt  le le  gt gt  ge ge);
#[inline] pub fn eq<A: PartialEq<B>, B>(_k: u32, a: &A, b: &B) -> bool { a == b }
#[inline] pub fn ne<A: PartialEq<B>, B>(_k: u32, a: &A, b: &B) -> bool { a != b }
#[inline] pub fn and(_k: u32, a: bool, b: impl FnOnce() -> bool) -> bool { a && b() }
#[inline] pub fn or(_k: u32, a: bool, b: impl FnOnce() -> bool) -> bool { a || b() }
#[inline] pub fn neg<A: Neg<Output = A>>(_k: u32, a: A) -> A { -a }
#[inline] pub fn not(_k: u32, a: bool) -> bool { a }
#[inline] pub fn idx(_k: u32, i: usize) -> usize { i }
#[inline] pub fn end(_k: u32, i: usize) -> usize { i }
#[inline] pub fn start(_k: u32, i: usize) -> usize { i }
#[inline] pub fn on(_k: u32) -> bool { false }
