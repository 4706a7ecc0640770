//! C32: complex functions at infinite and undefined arguments.
use cglinalg_core::*;
use cglmc::*;
use core::f64::consts::PI;

type C = [f64; 2];
const INF: f64 = f64::INFINITY;
const NAN: f64 = f64::NAN;

// The limits of the hyperbolic functions and their inverses at infinity (ISO C Annex G); the
// circular ones follow from f(z) = -i g(iz). `None` as a part: left open by the standard.
fn sgn(x: f64) -> f64 {
    if x.is_sign_negative() { -1.0 } else { 1.0 }
}
type L = [Option<f64>; 2];
fn lim(a: f64, b: f64) -> L {
    [Some(a), Some(b)]
}
fn asinh(z: C) -> L {
    match (z[0].is_infinite(), z[1].is_infinite()) {
        (true, true) => lim(z[0], sgn(z[1]) * PI / 4.0),
        (true, false) => lim(z[0], 0.0),
        _ => lim(sgn(z[0]) * INF, sgn(z[1]) * PI / 2.0),
    }
}
fn acosh(z: C) -> L {
    match (z[0].is_infinite(), z[1].is_infinite()) {
        (true, true) => lim(INF, sgn(z[1]) * if z[0] > 0.0 { PI / 4.0 } else { 0.75 * PI }),
        (true, false) => lim(INF, if z[0] > 0.0 { 0.0 } else { sgn(z[1]) * PI }),
        _ => lim(INF, sgn(z[1]) * PI / 2.0),
    }
}
fn atanh(z: C) -> L {
    lim(0.0, sgn(z[1]) * PI / 2.0)
}
fn acos(z: C) -> L {
    match (z[0].is_infinite(), z[1].is_infinite()) {
        (true, true) => lim(if z[0] > 0.0 { PI / 4.0 } else { 0.75 * PI }, -z[1]),
        (true, false) => lim(if z[0] > 0.0 { 0.0 } else { PI }, -sgn(z[1]) * INF),
        _ => lim(PI / 2.0, -z[1]),
    }
}
fn times(a: f64, b: f64) -> f64 {
    if b == 0.0 { 0.0 } else { a * b }
}
fn sinh(z: C) -> L {
    match (z[0].is_infinite(), z[1].is_infinite()) {
        (true, true) => [None, Some(NAN)],
        (true, false) => lim(times(z[0], z[1].cos()), times(INF, z[1].sin())),
        _ if z[0] == 0.0 => [None, Some(NAN)],
        _ => lim(NAN, NAN),
    }
}
fn cosh(z: C) -> L {
    match (z[0].is_infinite(), z[1].is_infinite()) {
        (true, true) => [None, Some(NAN)],
        (true, false) => lim(times(INF, z[1].cos()), times(z[0], z[1].sin())),
        _ if z[0] == 0.0 => [Some(NAN), None],
        _ => lim(NAN, NAN),
    }
}
fn tanh(z: C) -> L {
    match (z[0].is_infinite(), z[1].is_infinite()) {
        (true, _) => lim(sgn(z[0]), 0.0),
        _ if z[0] == 0.0 => [None, Some(NAN)],
        _ => lim(NAN, NAN),
    }
}
/// -i g(iz)
fn rot(g: fn(C) -> L, z: C) -> L {
    let w = g([-z[1], z[0]]);
    [w[1], w[0].map(|x| -x)]
}
fn rot_arg(g: fn(C) -> L, z: C) -> L {
    g([-z[1], z[0]])
}
macro_rules! at {
    ($c:ident, $t:ident, $z:expr, $tol:expr) => {{
        let z: C = $z;
        let x = Complex::<$t>::new(z[0] as $t, z[1] as $t);
        let mut one = |n: &str, got: Complex<$t>, want: L| {
            let g = [got.re as f64, got.im as f64];
            for i in 0..2 {
                if let Some(w) = want[i] {
                    let ok = if w.is_nan() { g[i].is_nan() } else if w.is_infinite() { g[i] == w } else { (g[i] - w).abs() <= $tol };
                    $c.truth_with(&format!("{n}, {} part", ["real", "imaginary"][i]), ok, || format!("got {:?}, limit {w}", g));
                }
            }
        };
        one("asinh", x.asinh(), asinh(z));
        one("acosh", x.acosh(), acosh(z));
        one("atanh", x.atanh(), atanh(z));
        one("asin", x.asin(), rot(asinh, z));
        one("acos", x.acos(), acos(z));
        one("atan", x.atan(), rot(atanh, z));
        one("sinh", x.sinh(), sinh(z));
        one("cosh", x.cosh(), cosh(z));
        one("tanh", x.tanh(), tanh(z));
        one("sin", x.sin(), rot(sinh, z));
        one("cos", x.cos(), rot_arg(cosh, z));
        one("tan", x.tan(), rot(tanh, z));
    }};
}
macro_rules! undefined {
    ($c:ident, $t:ident, $z:expr) => {{
        let z: C = $z;
        let x = Complex::<$t>::new(z[0] as $t, z[1] as $t);
        for (n, r) in [
            ("asinh", x.asinh()), ("acosh", x.acosh()), ("asin", x.asin()), ("acos", x.acos()), ("sinh", x.sinh()), ("cosh", x.cosh()),
            ("sin", x.sin()), ("cos", x.cos()), ("exp", x.exp()), ("ln", x.ln()), ("sqrt", x.sqrt()), ("square", x * x), ("cubed", x.powu(3)),
            ("conjugate", x.conjugate()), ("negation", -x),
        ] {
            $c.truth_with(&format!("{n} of an undefined number is not a finite number"), !(r.re.is_finite() && r.im.is_finite()), || format!("{r:?}"));
        }
        $c.truth("modulus", !x.norm_squared().is_finite());
        $c.truth("an undefined number equals nothing", x != x || z.iter().all(|v| !v.is_nan()));
    }};
}

fn main() {
    let ctx = Ctx::start("C32");
    let mut v: Vec<f64> = vec![0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 6.0, 7.5, 12.0];
    if ctx.thorough() {
        v.extend((1..=400).map(|k| k as f64 * 0.17));
        v.extend((1..=120).map(|k| (k as f64 - 60.0).exp2()));
    }
    let fin: Vec<f64> = v.iter().flat_map(|&x| [x, -x]).filter(|x| !(*x == 0.0 && x.is_sign_negative())).collect();
    ctx.bound(&format!("every combination of an infinite part with another infinite part or one of {} finite values, and of an undefined part with infinite, undefined and the same finite values", fin.len()));
    ctx.assume("negative zero imaginary parts and the signs the C standard leaves open are not asserted; neither are exp, ln and sqrt at infinity");
    let infs = [INF, -INF];
    let mut zs: Vec<C> = vec![];
    for a in infs {
        for b in infs {
            zs.push([a, b]);
        }
        for &f in &fin {
            zs.push([a, f]);
            zs.push([f, a]);
        }
    }
    ctx.section("limits-f64", |s| {
        for &z in &zs {
            s.case(|| format!("z = {z:?}"), |c| at!(c, f64, z, 1.0e-12));
        }
    });
    ctx.section("limits-f32", |s| {
        for &z in &zs {
            s.case(|| format!("z = {z:?}"), |c| at!(c, f32, z, 1.0e-5));
        }
    });
    let mut us: Vec<C> = vec![[NAN, NAN]];
    for &f in fin.iter().chain(&infs) {
        us.push([f, NAN]);
        us.push([NAN, f]);
    }
    ctx.section("undefined", |s| {
        for &z in &us {
            s.case(|| format!("z = {z:?}"), |c| {
                undefined!(c, f64, z);
                undefined!(c, f32, z);
            });
        }
    });
    ctx.finish();
}
