#![allow(missing_docs)]
extern crate std;
use core::ops::*;
use core::sync::atomic::{AtomicU16, AtomicU32, AtomicU8, Ordering::Relaxed};
static M: AtomicU32 = AtomicU32::new(u32::MAX);
static HIT: [AtomicU32; 32768] = [const { AtomicU32::new(0) }; 32768];
static GATE: AtomicU16 = AtomicU16::new(0);
static MODE: AtomicU16 = AtomicU16::new(0);
static FIRED: AtomicU8 = AtomicU8::new(0);
static TRACE: AtomicU8 = AtomicU8::new(0);
extern "C" {
    fn atexit(f: extern "C" fn()) -> i32;
}
extern "C" fn dump() {
    let mut s = std::string::String::new();
    let mut p = std::string::String::new();
    for (i, h) in HIT.iter().enumerate() {
        let v = h.load(Relaxed);
        if v != 0 {
            s += &std::format!("{i}\n");
            p += &std::format!("{i} {v}\n");
        }
    }
    let t = std::env::var("CGL_MUT_TRACE").unwrap();
    let _ = std::fs::write(&t, s);
    let _ = std::fs::write(t + ".profile", p);
}
extern "C" fn fired() {
    let v = FIRED.load(Relaxed);
    let _ = std::fs::write(std::env::var("CGL_FIRED").unwrap(), if v != 0 { "1" } else { "0" });
}
#[cold]
fn init() -> u32 {
    if std::env::var("CGL_MUT_TRACE").is_ok() && TRACE.swap(1, Relaxed) == 0 {
        unsafe { atexit(dump); }
    }
    let k = std::env::var("CGL_MUT").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    GATE.store(std::env::var("CGL_GATE").ok().and_then(|s| s.parse().ok()).unwrap_or(0), Relaxed);
    MODE.store(std::env::var("CGL_MODE").ok().and_then(|s| s.parse().ok()).unwrap_or(0), Relaxed);
    if std::env::var("CGL_FIRED").is_ok() { unsafe { atexit(fired); } }
    M.store(k, Relaxed);
    k
}
#[inline]
pub fn on(k: u32) -> bool {
    let mut m = M.load(Relaxed);
    if m == u32::MAX {
        m = init();
    }
    if TRACE.load(Relaxed) != 0 {
        HIT[k as usize].fetch_or(1, Relaxed);
    }
    m == k
}
/// What kind of values an operation sees: 2 f64, 4 f32, 8 integer, 16 >100, 32 >1e6, 64 <1e-2, 128 <1e-6, 256 negative, 512 not a multiple of 1/8
fn look<A>(a: &A) -> u16 {
    let t = core::any::type_name::<A>();
    if t.starts_with('&') {
        return 0;
    }
    let (bit, w) = if t.contains("f64") { (2, 8) } else if t.contains("f32") { (4, 4) } else { return if t.contains("i32") || t.contains("i64") || t.contains("u32") || t.contains("i8") { 8 } else { 0 } };
    let n = core::mem::size_of::<A>() / w;
    let p = a as *const A as *const u8;
    let mut m = 0f64;
    let mut r = bit;
    for i in 0..n {
        let x = unsafe { if w == 8 { (p as *const f64).add(i).read_unaligned() } else { (p as *const f32).add(i).read_unaligned() as f64 } };
        if x < 0.0 { r |= 256; }
        if x * 8.0 != (x * 8.0) as i64 as f64 { r |= 512; }
        let y = if x < 0.0 { -x } else { x };
        if y > m { m = y; }
    }
    if m > 100.0 { r |= 16; }
    if m > 1e6 { r |= 32; }
    if m > 0.0 && m < 1e-2 { r |= 64; }
    if m > 0.0 && m < 1e-6 { r |= 128; }
    r
}
/// The value-dependent faults: what becomes of a result (each scalar of it) under the mode.
fn fault(x: f64, mode: u16, wide: bool) -> f64 {
    let y = if x < 0.0 { -x } else { x };
    if !(y < f64::INFINITY) { return x; }
    let g = if x < 0.0 { -1.0 } else { 1.0 };
    match mode {
        1 => x * (1.0 + if wide { 1e-8 } else { 1e-4 }),
        2 if y < 1e-8 && y > 1e-14 => x * 1.01,
        3 if y > 1e8 => x * 1.01,
        4 if (y - 1.0 < 1e-4 && y - 1.0 > 1e-10) || (1.0 - y < 1e-4 && 1.0 - y > 1e-10) => g,
        5 if y < 1e-3 && y > 1e-8 => x * 1.01,
        6 if y > 1e3 => x * 1.01,
        7 if y > 1e15 => x * 1.01,
        8 if y < 1e-14 && y > 1e-30 => x * 1.01,
        9 if x < 0.0 => -x,
        10 if x != 0.0 && y == 0.5 => x * 1.25,
        _ => x,
    }
}
/// Applies the fault to every scalar of a value; true if anything changed.
fn corrupt<A>(a: &mut A, mode: u16) {
    let t = core::any::type_name::<A>();
    if t.starts_with('&') { return; }
    let w = if t.contains("f64") { 8 } else if t.contains("f32") { 4 } else { return };
    let n = core::mem::size_of::<A>() / w;
    let p = a as *mut A as *mut u8;
    for i in 0..n { unsafe {
        if w == 8 {
            let q = (p as *mut f64).add(i);
            let x = q.read_unaligned();
            let y = fault(x, mode, true);
            if y.to_bits() != x.to_bits() { FIRED.store(1, Relaxed); q.write_unaligned(y); }
        } else {
            let q = (p as *mut f32).add(i);
            let x = q.read_unaligned();
            let y = fault(x as f64, mode, false) as f32;
            if y.to_bits() != x.to_bits() { FIRED.store(1, Relaxed); q.write_unaligned(y); }
        }
    } }
}
/// Modes 20 and up pick the operands for which the operation itself is the wrong one.
fn picked<A, B>(a: &A, b: &B, mode: u16) -> bool {
    let (t, u) = (core::any::type_name::<A>(), core::any::type_name::<B>());
    if t != u { return false; }
    let (x, y) = unsafe { match t {
        "f64" => ((a as *const A as *const f64).read(), (b as *const B as *const f64).read()),
        "f32" => ((a as *const A as *const f32).read() as f64, (b as *const B as *const f32).read() as f64),
        _ => return false,
    } };
    let r = match mode {
        20 => x == y && x != 0.0,
        21 => x == -y && x != 0.0,
        22 => x < 0.0 && y < 0.0,
        23 => x == 0.0 && y != 0.0,
        24 => y == 0.0 && x != 0.0,
        25 => x != 0.0 && y != 0.0 && (x / y > 1e6 || x / y < -1e6),
        26 => x != 0.0 && y != 0.0 && (y / x > 1e6 || y / x < -1e6),
        27 => x == 1.0 || y == 1.0,
        28 => x == -1.0 || y == -1.0,
        _ => false,
    };
    if r { FIRED.store(1, Relaxed); }
    r
}
/// In trace mode: which modes would take effect here (mode 1..10 -> bit 9 + mode, 20..28 -> bit mode).
fn note<A>(k: u32, r: &A) {
    let t = core::any::type_name::<A>();
    if t.starts_with('&') { return; }
    let w = if t.contains("f64") { 8 } else if t.contains("f32") { 4 } else { return };
    let n = core::mem::size_of::<A>() / w;
    let p = r as *const A as *const u8;
    let mut bits = 0u32;
    for i in 0..n {
        let x = unsafe { if w == 8 { (p as *const f64).add(i).read_unaligned() } else { (p as *const f32).add(i).read_unaligned() as f64 } };
        for m in 1..=10u16 { if fault(x, m, w == 8) != x { bits |= 1 << (9 + m); } }
    }
    HIT[k as usize].fetch_or(bits, Relaxed);
}
fn note2<A, B>(k: u32, a: &A, b: &B) {
    let mut bits = 0u32;
    for m in 20..=28u16 { if picked(a, b, m) { bits |= 1 << m; } }
    HIT[k as usize].fetch_or(bits, Relaxed);
}
#[inline]
fn on2<A, B>(k: u32, a: &A, b: &B) -> bool {
    let r = on(k);
    if TRACE.load(Relaxed) != 0 {
        HIT[k as usize].fetch_or((look(a) | look(b)) as u32, Relaxed);
    }
    if r {
        let g = GATE.load(Relaxed);
        return g == 0 || (look(a) | look(b)) & g == g;
    }
    false
}
macro_rules! two {
    ($($n:ident $T:ident $f:ident $U:ident $g:ident)*) => {$(
        #[inline]
        pub fn $n<A, B>(k: u32, a: A, b: B) -> <A as $T<B>>::Output where A: $T<B> + $U<B, Output = <A as $T<B>>::Output> {
            if on2(k, &a, &b) {
                let m = MODE.load(Relaxed);
                if m >= 20 && !picked(&a, &b, m) { return a.$f(b); }
                if m == 0 || m >= 20 { a.$g(b) } else { let mut r = a.$f(b); corrupt(&mut r, m); r }
            } else if TRACE.load(Relaxed) != 0 { note2(k, &a, &b); let r = a.$f(b); note(k, &r); r } else { a.$f(b) }
        }
    )*};
}
two!(add Add add Sub sub  sub Sub sub Add add  mul Mul mul Div div  div Div div Mul mul);
macro_rules! assign {
    ($($n:ident $T:ident $f:ident $U:ident $g:ident)*) => {$(
        #[inline]
        pub fn $n<A, B>(k: u32, a: &mut A, b: B) where A: $T<B> + $U<B> {
            if on2(k, a, &b) {
                let m = MODE.load(Relaxed);
                if m >= 20 && !picked(a, &b, m) { return a.$f(b); }
                if m == 0 || m >= 20 { a.$g(b) } else { a.$f(b); corrupt(a, m); }
            } else if TRACE.load(Relaxed) != 0 { note2(k, a, &b); a.$f(b); note(k, a); } else { a.$f(b) }
        }
    )*};
}
assign!(add_assign AddAssign add_assign SubAssign sub_assign  sub_assign SubAssign sub_assign AddAssign add_assign  mul_assign MulAssign mul_assign DivAssign div_assign  div_assign DivAssign div_assign MulAssign mul_assign);
pub fn bitand_assign(k: u32, a: &mut bool, b: bool) {
    if on(k) { *a |= b } else { *a &= b }
}
macro_rules! cmp {
    ($($n:ident $f:ident $g:ident)*) => {$(
        #[inline]
        pub fn $n<A: PartialOrd<B>, B>(k: u32, a: &A, b: &B) -> bool { if on2(k, a, b) { a.$g(b) } else { a.$f(b) } }
    )*};
}
cmp!(lt lt le  le le lt  gt gt ge  ge ge gt);
#[inline]
pub fn eq<A: PartialEq<B>, B>(k: u32, a: &A, b: &B) -> bool { if on(k) { a != b } else { a == b } }
#[inline]
pub fn ne<A: PartialEq<B>, B>(k: u32, a: &A, b: &B) -> bool { if on(k) { a == b } else { a != b } }
#[inline]
pub fn and(k: u32, a: bool, b: impl FnOnce() -> bool) -> bool { if on(k) { a || b() } else { a && b() } }
#[inline]
pub fn or(k: u32, a: bool, b: impl FnOnce() -> bool) -> bool { if on(k) { a && b() } else { a || b() } }
#[inline]
pub fn neg<A: Neg<Output = A>>(k: u32, a: A) -> A { if on2(k, &a, &a) { a } else { -a } }
#[inline]
pub fn not(k: u32, a: bool) -> bool { if on(k) { !a } else { a } }
#[inline]
pub fn idx(k: u32, i: usize) -> usize { if on(k) { if i == 0 { 1 } else { i - 1 } } else { i } }
#[inline]
pub fn end(k: u32, i: usize) -> usize { if on(k) { i.saturating_sub(1) } else { i } }
#[inline]
pub fn start(k: u32, i: usize) -> usize { if on(k) { i + 1 } else { i } }
