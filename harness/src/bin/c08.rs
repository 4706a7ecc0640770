//! C08: vector and point arithmetic is componentwise in every operand form.
use cglinalg_core::*;
use cglmc::*;
use std::ops::{Add, Div, Mul, Rem, Sub};

fn zip<T: Copy, const N: usize>(a: &[T; N], b: &[T; N], f: impl Fn(T, T) -> T) -> [T; N] {
    let mut o = *a;
    for i in 0..N {
        o[i] = f(a[i], b[i]);
    }
    o
}
macro_rules! forms2 {
    ($c:ident, $name:literal, $x:ident $op:tt $y:ident, $want:expr) => {{
        let w = $want;
        $c.eq(concat!($name, " value-value"), $x $op $y, w);
        $c.eq(concat!($name, " value-ref"), $x $op &$y, w);
        $c.eq(concat!($name, " ref-value"), &$x $op $y, w);
        $c.eq(concat!($name, " ref-ref"), &$x $op &$y, w);
    }};
}
macro_rules! assign {
    ($c:ident, $name:literal, $x:ident $op:tt $y:expr, $want:expr) => {{
        let mut z = $x;
        z $op $y;
        $c.eq(concat!($name, " assign"), z, $want);
    }};
}
/// One pair of tuples and one scalar: every operation in every form.
macro_rules! all_ops {
    ($c:ident, $t:ident, $n:literal, $a:expr, $b:expr, $k:expr, signed = $signed:literal) => {{
        let (a, b, k): ([$t; $n], [$t; $n], $t) = ($a, $b, $k);
        let x = Vector::<$t, $n>::from(a);
        let y = Vector::<$t, $n>::from(b);
        let p = Point::<$t, $n>::from(a);
        let q = Point::<$t, $n>::from(b);
        let sum = zip(&a, &b, |u, v| u.add(v));
        forms2!($c, "vector+vector", x + y, sum);
        assign!($c, "vector+=vector", x += y, sum);
        assign!($c, "vector+=&vector", x += &y, sum);
        forms2!($c, "point+vector", p + y, sum);
        assign!($c, "point+=vector", p += y, sum);
        assign!($c, "point+=&vector", p += &y, sum);
        let can_sub = $signed || a.iter().zip(b.iter()).all(|(u, v)| u >= v);
        if can_sub {
            let d = zip(&a, &b, |u, v| u.sub(v));
            forms2!($c, "vector-vector", x - y, d);
            assign!($c, "vector-=vector", x -= y, d);
            assign!($c, "vector-=&vector", x -= &y, d);
            forms2!($c, "point-vector", p - y, d);
            assign!($c, "point-=vector", p -= y, d);
            assign!($c, "point-=&vector", p -= &y, d);
            forms2!($c, "point-point", p - q, d);
        }
        let m = a.map(|u| u.mul(k));
        $c.eq("vector*scalar", x * k, m);
        $c.eq("&vector*scalar", &x * k, m);
        $c.eq("point*scalar", p * k, m);
        $c.eq("&point*scalar", &p * k, m);
        forms2!($c, "scalar*vector", k * x, m);
        $c.eq("scalar*point", k * p, m);
        $c.eq("&scalar*point", &k * p, m);
        assign!($c, "vector*=scalar", x *= k, m);
        assign!($c, "point*=scalar", p *= k, m);
        if k != (0 as $t) {
            let d = a.map(|u| u.div(k));
            $c.close("vector/scalar", x / k, d, 1e-15);
            $c.close("&vector/scalar", &x / k, d, 1e-15);
            $c.close("point/scalar", p / k, d, 1e-15);
            $c.close("&point/scalar", &p / k, d, 1e-15);
            { let mut z = x; z /= k; $c.close("vector/=scalar", z, d, 1e-15); }
            { let mut z = p; z /= k; $c.close("point/=scalar", z, d, 1e-15); }
            let r = a.map(|u| u.rem(k));
            $c.eq("vector%scalar", x % k, r);
            $c.eq("&vector%scalar", &x % k, r);
            $c.eq("point%scalar", p % k, r);
            $c.eq("&point%scalar", &p % k, r);
            assign!($c, "vector%=scalar", x %= k, r);
            assign!($c, "point%=scalar", p %= k, r);
        }
        let h = zip(&a, &b, |u, v| u.mul(v));
        $c.eq("component_mul", x.component_mul(&y), h);
        { let mut z = x; z.component_mul_assign(&y); $c.eq("component_mul_assign", z, h); }
        $c.eq("operands unchanged", (x, y, p, q), (a, b, a, b));
    }};
}
macro_rules! neg_ops {
    ($c:ident, $t:ident, $n:literal, $a:expr) => {{
        let a: [$t; $n] = $a;
        let x = Vector::<$t, $n>::from(a);
        let p = Point::<$t, $n>::from(a);
        let m = a.map(|u| -u);
        $c.eq("-vector", -x, m);
        $c.eq("-&vector", -&x, m);
        $c.eq("-point", -p, m);
        $c.eq("-&point", -&p, m);
        { let mut z = x; z.neg_mut(); $c.eq("neg_mut", z, m); }
    }};
}
/// All pairs of tuples over an alphabet, all scalars of a list.
macro_rules! sweep {
    ($ctx:ident, $name:literal, $t:ident, $n:literal, $alpha:expr, $ks:expr, $signed:literal) => {{
        let alpha: &[$t] = $alpha;
        let ks: &[$t] = $ks;
        let m = grid::count(alpha.len(), $n);
        $ctx.par(concat!($name, "-", stringify!($t), "-", $n), m, |i, s| {
            let a: [$t; $n] = grid::tuple(alpha, i);
            for j in 0..m {
                let b: [$t; $n] = grid::tuple(alpha, j);
                let k = ks[(i + j) % ks.len()];
                s.case(|| format!("a = {a:?}, b = {b:?}, k = {k:?}"), |c| all_ops!(c, $t, $n, a, b, k, signed = $signed));
            }
        });
    }};
}
macro_rules! scalars_left {
    ($ctx:ident, $($t:ident)*) => {$(
        $ctx.section(concat!("scalar-on-the-left-", stringify!($t)), |s| {
            for k in 0..=10u8 { for i in 0..8u8 {
                let a = [i as $t, (i as $t) + 1 as $t, 3 as $t, (2 * i) as $t, 1 as $t];
                let k = k as $t;
                s.case(|| format!("{k:?} * {a:?}"), |c| {
                    macro_rules! n { ($m:literal) => {{
                        let mut b = [0 as $t; $m]; for j in 0..$m { b[j] = a[j]; }
                        let w = b.map(|u| u * k);
                        let v = Vector::<$t, $m>::from(b);
                        let p = Point::<$t, $m>::from(b);
                        forms2!(c, "scalar*vector", k * v, w);
                        c.eq("scalar*point", k * p, w);
                        c.eq("&scalar*point", &k * p, w);
                        c.eq("vector*scalar", v * k, w);
                        c.eq("point*scalar", p * k, w);
                    }}; }
                    n!(1); n!(2); n!(3); n!(4); n!(5);
                });
            } }
        });
    )*};
}

fn main() {
    let ctx = Ctx::start("C08");
    let full = ctx.thorough();
    ctx.bound("all pairs of tuples over 8, 6, 5 and 3..5-letter alphabets for dimensions 1..4 (f64, f32, i32; naturals for u32), each with every operator in every value/reference and assigning form, plus dimensions 5 to 9, 12 and 16 on distinct fills");
    ctx.bound("power-of-two rescalings of the operands by 2^+-60 and 2^+-300; all 14 scalar types on the left");
    ctx.assume("division by a scalar may be implemented by reciprocal multiplication (tolerance 1e-15 relative)");
    sweep!(ctx, "pairs", f64, 1, &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 1048576.0, -0.0009765625], &[2.0, -1.0, 0.5, 0.0, 3.0, 8.0, -4.0], true);
    sweep!(ctx, "pairs", f64, 2, &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5], &[2.0, -1.0, 0.5, 0.0, 3.0, 8.0, -4.0], true);
    sweep!(ctx, "pairs", f64, 3, if full { &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 1024.0] } else { &[0.0, 1.0, -1.0, 2.0, -3.0] }, &[2.0, -1.0, 0.5, 0.0, 3.0, 8.0, -4.0], true);
    sweep!(ctx, "pairs", f64, 4, if full { &[0.0, 1.0, -2.0, 3.0, 0.5] } else { &[0.0, 1.0, -2.0] }, &[2.0, -1.0, 0.5, 0.0, 3.0, 8.0, -4.0], true);
    sweep!(ctx, "pairs", f32, 1, &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5], &[2.0, -1.0, 0.5, 0.0, 4.0], true);
    sweep!(ctx, "pairs", f32, 2, &[0.0, 1.0, -1.0, 2.0, -3.0], &[2.0, -1.0, 0.5, 0.0, 4.0], true);
    sweep!(ctx, "pairs", f32, 3, &[0.0, 1.0, -2.0, 0.5], &[2.0, -1.0, 0.5, 0.0, 4.0], true);
    sweep!(ctx, "pairs", f32, 4, &[0.0, 1.0, -2.0], &[2.0, -1.0, 0.5, 0.0, 4.0], true);
    sweep!(ctx, "pairs", i32, 1, &[0, 1, -1, 2, -7, 100, 46340], &[2, -1, 0, 3, 5, 7], true);
    sweep!(ctx, "pairs", i32, 2, &[0, 1, -1, 2, -7, 100], &[2, -1, 0, 3, 5, 7], true);
    sweep!(ctx, "pairs", i32, 3, &[0, 1, -1, 2, -7], &[2, -1, 0, 3, 5, 7], true);
    sweep!(ctx, "pairs", i32, 4, if full { &[0, 1, -2, 7, -11] } else { &[0, 1, -2] }, &[2, -1, 0, 3, 5, 7], true);
    sweep!(ctx, "pairs", u32, 2, &[0, 1, 2, 7, 100], &[2, 0, 3, 5, 7], false);
    sweep!(ctx, "pairs", u32, 3, &[0, 1, 2, 9], &[2, 0, 3, 5, 7], false);
    sweep!(ctx, "pairs", u32, 4, &[0, 1, 5], &[2, 0, 3, 5, 7], false);
    sweep!(ctx, "pairs", i8, 3, &[0, 1, -2, 11], &[2, -1, 0, 3, 5, 7], true);
    // operands of mixed sizes, nearly one, nearly equal and with full mantissas
    const MIXED: &[f64] = &[1.0 / 3.0, 1.0 + 1.0 / 262144.0, -0.999999, 1048577.0, 3.0 / 4194304.0, -7.0e12, 0.1, 0.1 + 1e-9];
    const FEW: &[f64] = &[1.0 / 3.0, 1.0 + 1.0 / 262144.0, -1048577.0, 3.0 / 4194304.0, -0.999999];
    ctx.bound(&format!("all pairs over operands of mixed sizes {MIXED:?} (dimensions 1 and 2) and {FEW:?} (dimensions 3 and 4: the first {} of them)", ctx.pick(3, 4)));
    sweep!(ctx, "mixed", f64, 1, MIXED, &[0.1, 1.000001, -0.999999, 3e-7, 1048577.0], true);
    sweep!(ctx, "mixed", f64, 2, MIXED, &[0.1, 1.000001, -0.999999, 3e-7, 1048577.0, 0.5, -1.0], true);
    sweep!(ctx, "mixed", f64, 3, FEW, &[0.1, 1.000001, -0.999999, 3e-7, 1048577.0, 0.5, -1.0], true);
    sweep!(ctx, "mixed", f64, 4, &FEW[..ctx.pick(3, 4)], &[0.1, 1.000001, -0.999999, 3e-7, 1048577.0], true);
    sweep!(ctx, "mixed", f64, 5, &FEW[..2], &[0.1, 1.000001, -0.999999, 3e-7, 1048577.0], true);
    ctx.section("negation", |s| {
        for i in 0..grid::count(6, 4) {
            let a: [f64; 4] = grid::tuple(grid::SMALL, i);
            s.case(|| format!("{a:?}"), |c| {
                neg_ops!(c, f64, 4, a);
                neg_ops!(c, f64, 3, [a[0], a[1], a[2]]);
                neg_ops!(c, f64, 2, [a[0], a[1]]);
                neg_ops!(c, f64, 1, [a[0]]);
                neg_ops!(c, f64, 5, [a[0], a[1], a[2], a[3], a[1] + 7.0]);
                neg_ops!(c, f32, 4, a.map(|x| x as f32));
                neg_ops!(c, i32, 4, a.map(|x| (x * 2.0) as i32));
                neg_ops!(c, i64, 3, [a[0] as i64, a[1] as i64, a[2] as i64]);
            });
        }
    });
    ctx.section("magnitudes", |s| {
        let e: &[i32] = &[0, 60, -60, 300, -300, 20, -20];
        for &ea in e {
            for &eb in e {
                for fill in 0..12 {
                    let a: [f64; 16] = grid::distinct(fill).map(|x: f64| x * 2f64.powi(ea));
                    let b: [f64; 16] = grid::distinct(fill + 5).map(|x: f64| x * 2f64.powi(eb));
                    let k = 2f64.powi((fill % 5) as i32 - 2);
                    s.case(|| format!("a = {a:?}, b = {b:?}, k = {k:?}"), |c| {
                        macro_rules! n { ($m:literal) => {{
                            let mut u = [0.0; $m]; let mut v = [0.0; $m];
                            for j in 0..$m { u[j] = a[j]; v[j] = b[j]; }
                            all_ops!(c, f64, $m, u, v, k, signed = true);
                            neg_ops!(c, f64, $m, u);
                        }}; }
                        n!(1); n!(2); n!(3); n!(4); n!(5);
                        if fill < 4 { n!(6); n!(7); n!(8); n!(9); n!(12); n!(16); }
                    });
                }
            }
        }
    });
    scalars_left!(ctx, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
    ctx.finish();
}
