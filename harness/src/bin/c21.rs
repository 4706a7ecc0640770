//! C21: transcendental functions of quaternions.
use cglinalg_core::*;
use cglmc::model::cx;
use cglmc::*;
use core::f64::consts::{FRAC_PI_2, PI};

type C = [f64; 2];
fn lift(u: &[f64; 3], z: C) -> [f64; 4] {
    [z[0], u[0] * z[1], u[1] * z[1], u[2] * z[1]]
}
/// Coordinates on the slice, and the distance from it.
fn drop(u: &[f64; 3], q: &[f64; 4]) -> (C, f64) {
    let v = [q[1], q[2], q[3]];
    let y = model::dot(u, &v);
    (([q[0], y]), model::norm(&model::sub(&v, &model::scale(u, y))))
}

macro_rules! functions {
    ($c:ident, $t:ident, $u:expr, $z:expr, $tol:expr) => {{
        let (u, z): ([f64; 3], C) = ($u, $z);
        let tol: f64 = $tol;
        let a = lift(&u, z);
        let q = Quaternion::<$t>::new(a[0] as $t, a[1] as $t, a[2] as $t, a[3] as $t);
        let arr = |q: Quaternion<$t>| [q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64];
        $c.close("exp", q.exp(), lift(&u, cx::exp(z)), tol);
        $c.close("sin", q.sin(), lift(&u, cx::sin(z)), tol);
        $c.close("cos", q.cos(), lift(&u, cx::cos(z)), tol);
        $c.close("sinh", q.sinh(), lift(&u, cx::sinh(z)), tol);
        $c.close("cosh", q.cosh(), lift(&u, cx::cosh(z)), tol);
        let (dt, dh) = (cx::abs(cx::cos(z)), cx::abs(cx::cosh(z)));
        if dt > 0.05 {
            $c.close("tan", q.tan(), lift(&u, cx::tan(z)), 20.0 * tol);
        }
        if dh > 0.05 {
            $c.close("tanh", q.tanh(), lift(&u, cx::tanh(z)), 20.0 * tol);
        }
        let real = z[1] == 0.0;
        let r = cx::abs(z);
        if r > 0.0 && !(real && z[0] < 0.0) {
            $c.close("ln", q.ln(), lift(&u, cx::ln(z)), tol);
            $c.close("exp(ln q) = q", q.ln().exp(), a, 4.0 * tol);
            $c.close("arg", q.arg(), cx::arg(z), tol);
            for p in [2.0, 3.0, -1.0, 0.5, 1.5, 0.0, -2.0, 1.0] {
                let w = cx::pow(z, [p, 0.0]);
                $c.close("powf", q.powf(p as $t), lift(&u, w), 50.0 * tol);
            }
        }
        if r > 0.0 && real && z[0] < 0.0 {
            $c.close("ln of a negative real is documented as ln|s|", q.ln(), [(-z[0]).ln(), 0.0, 0.0, 0.0], tol);
            $c.close("sqrt of a negative real is documented to lie on the x axis", q.sqrt(), [0.0, (-z[0]).sqrt(), 0.0, 0.0], tol);
        } else {
            $c.close("sqrt", q.sqrt(), lift(&u, cx::sqrt(z)), tol);
        }
        $c.close("sqrt(q)^2 = q", q.sqrt().squared(), a, 4.0 * tol);
        // Inverse functions: right inverse, on the slice, in the principal strip.
        macro_rules! inv {
            ($name:literal, $got:expr, $f:expr, $range:expr, $itol:expr) => {{
                let g = arr($got);
                let (w, off) = drop(&u, &g);
                $c.close(concat!($name, " stays on the slice"), off, 0.0, $itol);
                $c.close(concat!($name, " is a right inverse"), $f(w), z, $itol);
                let ok: bool = $range(w);
                $c.truth_with(concat!($name, " lies in the principal strip"), ok, || format!("{g:?} (slice coordinates {w:?})"));
            }};
        }
        let it = 200.0 * tol;
        let sl = 1e-5;
        let in01 = |x: f64| x >= -sl && x <= PI + sl;
        let strip = |x: f64| x.abs() <= FRAC_PI_2 + sl;
        // distance from the singular points where the derivative of the inverse is unbounded
        let d1 = (cx::abs([z[0] - 1.0, z[1]])).min(cx::abs([z[0] + 1.0, z[1]]));
        let di = (cx::abs([z[0], z[1] - 1.0])).min(cx::abs([z[0], z[1] + 1.0]));
        let in_real_domain = !real || z[0].abs() < 1.0;
        if d1 > 0.04 && in_real_domain {
            inv!("acos", q.acos(), cx::cos, |w: C| in01(w[0]), it);
            inv!("asin", q.asin(), cx::sin, |w: C| strip(w[0]), it);
            inv!("atanh", q.atanh(), cx::tanh, |w: C| strip(w[1]), it);
        }
        if di > 0.04 {
            inv!("atan", q.atan(), cx::tan, |w: C| strip(w[0]), it);
            inv!("asinh", q.asinh(), cx::sinh, |w: C| strip(w[1]), it);
        }
        if d1 > 0.04 && (!real || z[0] > 1.0) {
            inv!("acosh", q.acosh(), cx::cosh, |w: C| w[0] >= -sl && w[1].abs() <= PI + sl, it);
        }
        if real {
            let x = z[0];
            $c.close("real exp", q.exp(), [x.exp(), 0.0, 0.0, 0.0], tol);
            $c.close("real asinh", q.asinh(), [x.asinh(), 0.0, 0.0, 0.0], it);
            $c.close("real atan", q.atan(), [x.atan(), 0.0, 0.0, 0.0], it);
            if x.abs() < 0.96 {
                $c.close("real acos", q.acos(), [x.acos(), 0.0, 0.0, 0.0], it);
                $c.close("real asin", q.asin(), [x.asin(), 0.0, 0.0, 0.0], it);
                $c.close("real atanh", q.atanh(), [x.atanh(), 0.0, 0.0, 0.0], it);
            }
            if x > 1.04 {
                $c.close("real acosh", q.acosh(), [x.acosh(), 0.0, 0.0, 0.0], it);
            }
        }
    }};
}

fn main() {
    let ctx = Ctx::start("C21");
    let full = ctx.thorough();
    let dirs = grid::directions3(full);
    let step = ctx.grade(0.25, 0.03125, 0.015625);
    let lim = ctx.pick(3.0, 4.0);
    let mut pts: Vec<C> = Vec::new();
    let k = (lim / step) as i32;
    for i in -k..=k {
        for j in 0..=k {
            pts.push([i as f64 * step, j as f64 * step]);
        }
    }
    for &(x, y) in &[(0.0, 1.25), (0.0, 1.75), (0.0, 0.75), (0.25, 0.25), (-0.25, 0.25), (-0.75, 0.125), (0.75, 0.125), (1.25, 0.125), (-1.25, 0.125), (-2.75, 0.125), (0.25, 1.25), (-0.25, 1.25), (0.7, 0.0), (-0.7, 0.0), (0.1, 0.0), (-0.1, 0.0)] {
        pts.push([x, y]);
    }
    ctx.bound(&format!("{} directions of the vector part x {} points of the slice half plane [-{lim},{lim}] x [0,{lim}] in steps of {step}", dirs.len(), pts.len()));
    ctx.par("slices", pts.len(), |i, s| {
        let z = pts[i];
        for u in &dirs {
            let u = *u;
            s.case(|| format!("s = {}, v = {} * {u:?}", z[0], z[1]), |c| functions!(c, f64, u, z, 1e-12));
            if z[1] == 0.0 {
                break;
            }
        }
    });
    ctx.par("f32", pts.len(), |i, s| {
        let z = pts[i];
        if z[1] != 0.0 && (z[1] < 0.2 || z[0].abs() > 2.1 || z[1] > 2.1) {
            return;
        }
        for u in dirs.iter().step_by(5) {
            let u = *u;
            s.case(|| format!("f32 s = {}, v = {} * {u:?}", z[0], z[1]), |c| functions!(c, f32, u, z, 2e-5));
            if z[1] == 0.0 {
                break;
            }
        }
    });
    // The exponential by its series on the real quaternion algebra (an oracle that knows no slices).
    let alpha: &[f64] = ctx.pick(&[0.0, 0.5, -0.75], &[0.0, 0.5, -0.75, 1.0, -1.25]);
    let n = grid::count(alpha.len(), 4);
    ctx.bound(&format!("series: all quaternions over {alpha:?}, 40 terms"));
    ctx.par("series", n, |i, s| {
        let a: [f64; 4] = grid::tuple(alpha, i);
        s.case(|| format!("{a:?}"), |c| {
            let q = Quaternion::<f64>::from(a);
            let mut term = [1.0, 0.0, 0.0, 0.0];
            let (mut e, mut sn, mut cs, mut sh, mut ch) = (term, [0.0; 4], term, [0.0; 4], term);
            for k in 1..40 {
                term = model::scale(&model::qmul(&term, &a), 1.0 / k as f64);
                e = model::add(&e, &term);
                let sg = if (k / 2) % 2 == 0 { 1.0 } else { -1.0 };
                if k % 2 == 1 {
                    sn = model::add(&sn, &model::scale(&term, sg));
                    sh = model::add(&sh, &term);
                } else {
                    cs = model::add(&cs, &model::scale(&term, sg));
                    ch = model::add(&ch, &term);
                }
            }
            c.close("exp", q.exp(), e, 1e-12);
            c.close("sin", q.sin(), sn, 1e-12);
            c.close("cos", q.cos(), cs, 1e-12);
            c.close("sinh", q.sinh(), sh, 1e-12);
            c.close("cosh", q.cosh(), ch, 1e-12);
            c.close("cosh + sinh = exp", q.cosh() + q.sinh(), e, 1e-12);
            // Integer powers by repeated multiplication.
            if a[1] != 0.0 || a[2] != 0.0 || a[3] != 0.0 {
                let mut p = [1.0, 0.0, 0.0, 0.0];
                for k in 1..=4 {
                    p = model::qmul(&p, &a);
                    c.close("powf integer", q.powf(k as f64), p, 1e-11);
                }
                let r = q.powf(1.0 / 3.0);
                c.close("cube of the cube root", r * r * r, a, 1e-11);
            }
        });
    });
    // Roots and logarithms at small and large magnitude.
    ctx.bound("sqrt, ln at magnitudes 2^-26 .. 2^26");
    ctx.section("magnitudes", |s| {
        for (i, u) in dirs.iter().enumerate().step_by(3) {
            for e in (-26..=26).step_by(4) {
                for t in [20.0, 75.0, 90.0, 130.0, 165.0] {
                    let k = 2f64.powi(e);
                    let z = cx::polar(1.0, grid::deg(t));
                    s.case(|| format!("2^{e} at {t} degrees, direction {i}"), |c| {
                        let a = lift(u, z).map(|x| x * k);
                        let q = Quaternion::<f64>::from(a);
                        c.close("sqrt", q.sqrt().map(|x| x / k.sqrt()), lift(u, cx::sqrt(z)), 1e-12);
                        c.close("ln", q.ln(), lift(u, [k.ln(), grid::deg(t)]), 1e-12);
                        c.close("arg", q.arg(), grid::deg(t), 1e-12);
                    });
                }
            }
        }
    });
    ctx.bound("small quaternions: 13 slice angles at magnitudes 2^-3 .. 2^-40 (f64) and 2^-3 .. 2^-20 (f32), relative tolerance");
    ctx.section("small-arguments", |s| {
        for (i, u) in dirs.iter().enumerate().step_by(ctx.pick(4, 1)) {
            for e in 3..=40 {
                for t in (0..=180).step_by(15) {
                    macro_rules! small { ($c:ident, $t:ident, $rt:literal) => {{
                        let k = 2f64.powi(-e);
                        let z = cx::polar(k, grid::deg(t as f64));
                        let z = if t == 180 { [-k, 0.0] } else { z };
                        let a = lift(u, z);
                        let q = Quaternion::<$t>::new(a[0] as $t, a[1] as $t, a[2] as $t, a[3] as $t);
                        $c.rel("sin", q.sin(), lift(u, cx::sin(z)), $rt);
                        $c.rel("tan", q.tan(), lift(u, cx::tan(z)), $rt);
                        $c.rel("sinh", q.sinh(), lift(u, cx::sinh(z)), $rt);
                        $c.rel("tanh", q.tanh(), lift(u, cx::tanh(z)), $rt);
                        $c.rel("exp", q.exp(), lift(u, cx::exp(z)), $rt);
                        $c.rel("vector part of exp", q.exp().vector(), model::scale(u, cx::exp(z)[1]), $rt);
                        $c.rel("cos", q.cos(), lift(u, cx::cos(z)), $rt);
                        $c.scaled("vector part of cos", q.cos().vector(), model::scale(u, cx::cos(z)[1]), k * k, $rt);
                        $c.rel("cosh", q.cosh(), lift(u, cx::cosh(z)), $rt);
                        $c.scaled("vector part of cosh", q.cosh().vector(), model::scale(u, cx::cosh(z)[1]), k * k, $rt);
                        if t != 180 {
                            $c.rel("ln", q.ln(), lift(u, cx::ln(z)), $rt);
                            $c.rel("sqrt", q.sqrt(), lift(u, cx::sqrt(z)), $rt);
                            $c.rel("powf", q.powf(1.5), lift(u, cx::pow(z, [1.5, 0.0])), 50.0 * $rt);
                        }
                        let it = 4.0 * $rt;
                        for (n, g, w) in [("asin", q.asin(), cx::asin(z)), ("atan", q.atan(), cx::atan(z)), ("asinh", q.asinh(), cx::asinh(z)), ("acos", q.acos(), cx::acos(z))] {
                            $c.close(n, g, lift(u, w), it);
                        }
                        $c.close("atanh", q.atanh(), lift(u, cx::atanh(z)), it);
                    }}; }
                    s.case(|| format!("2^-{e} at {t} degrees, direction {i}"), |c| small!(c, f64, 1e-13));
                    if e <= 20 {
                        s.case(|| format!("f32 2^-{e} at {t} degrees, direction {i}"), |c| small!(c, f32, 4e-6));
                    }
                }
            }
        }
    });
    ctx.bound("exponentials and circular/hyperbolic functions with growth exponents up to +-600 (f32 +-80) and phases up to 1000; logarithms, roots and powers at moduli 2^-240 .. 2^60 (f32 2^-54 .. 2^24) at 13 slice angles");
    ctx.section("wide-arguments", |s| {
        for (i, u) in dirs.iter().enumerate().step_by(ctx.pick(4, 1)) {
            macro_rules! wide { ($t:ident, $rt:literal, $top:literal) => {
                for g in [0.001f64, 0.5, 3.0, 5.0, 7.0, 8.5, 10.0, 15.0, 20.0, 37.0, 50.0, 80.0, 100.0, 200.0, 300.0, 450.0, 600.0] {
                    if g > $top { continue; }
                    for f in [0.3f64, 1.0, 2.0, 1.5, 3.0, 3.125, 4.5, 6.0, 10.0, 31.0, 100.0, 1000.0] { for sg in [1.0, -1.0] {
                        s.case(|| format!(concat!(stringify!($t), " growth {} phase {}, direction {}"), sg * g, f, i), |c| {
                            let of = |z: C| { let a = lift(u, z); Quaternion::<$t>::new(a[0] as $t, a[1] as $t, a[2] as $t, a[3] as $t) };
                            let (z, v) = ([(sg * g) as $t as f64, f], [(sg * f) as $t as f64, g]);
                            // the length of the vector part is rounded
                            let (tz, tv) = ($rt * (1.0 + f), $rt * (1.0 + g));
                            let (x, y) = (of(z), of(v));
                            c.rel("exp", x.exp(), lift(u, cx::exp(z)), tz);
                            c.scaled("sinh", x.sinh(), lift(u, cx::sinh(z)), g.cosh() / 2.0, tz);
                            c.scaled("cosh", x.cosh(), lift(u, cx::cosh(z)), g.cosh() / 2.0, tz);
                            c.scaled("sin", y.sin(), lift(u, cx::sin(v)), g.cosh() / 2.0, tv);
                            c.scaled("cos", y.cos(), lift(u, cx::cos(v)), g.cosh() / 2.0, tv);
                        });
                    } }
                }
            }; }
            wide!(f64, 1e-13, 600.0);
            wide!(f32, 4e-6, 80.0);
            macro_rules! moduli { ($t:ident, $rt:literal, $low:literal, $top:literal, $step:literal, $powers:literal) => {
                for e in ($low..=$top).step_by($step).chain([-1, 1]) { for m in [1.0, 1.0 + 1e-5, 1.375] { for d in (15..180).step_by(15) {
                    s.case(|| format!(concat!(stringify!($t), " {} * 2^{} at {} degrees, direction {}"), m, e, d, i), |c| {
                        let z = cx::polar(m * 2f64.powi(e), grid::deg(d as f64));
                        let a = lift(u, z);
                        let q = Quaternion::<$t>::new(a[0] as $t, a[1] as $t, a[2] as $t, a[3] as $t);
                        let l = cx::ln(z);
                        c.close("ln", q.ln(), lift(u, l), 2.0 * $rt);
                        c.close("arg", q.arg(), l[1], 2.0 * $rt);
                        c.rel("sqrt", q.sqrt(), lift(u, cx::sqrt(z)), 2.0 * $rt);
                        c.rel("sqrt(q)^2 = q", q.sqrt().squared(), a, 4.0 * $rt);
                        for p in [0.5f64, 1.0, -1.0, 2.0, -1.5, -0.25, 0.001, 0.1] {
                            if f64::abs(p * l[0]) < $powers {
                                c.rel("powf", q.powf(p as $t), lift(u, cx::pow(z, [p as $t as f64, 0.0])), $rt * (8.0 + 8.0 * f64::abs(p * l[0])));
                            }
                        }
                    });
                } } }
            }; }
            moduli!(f64, 1e-13, -240, 60, 6, 600.0);
            moduli!(f32, 4e-6, -54, 24, 6, 60.0);
        }
    });
    ctx.bound("tangents at distances 2, 2.25, .. 20 from the axis (tolerance 2e-14) and up to 1e6; logarithms of quaternions with scalar part -1 .. -2^20 and vector parts down to 2^-46");
    ctx.section("large-arguments", |s| {
        for (i, u) in dirs.iter().enumerate().step_by(ctx.pick(4, 1)) {
            let mut xs: Vec<f64> = (8..=80).map(|k| k as f64 * 0.25).collect();
            xs.extend([40.0, 100.0, 300.0, 356.0, 400.0, 709.0, 720.0, 1e4, 1e6]);
            for x in xs {
                for y in [0.0, 0.3, 1.0, 2.0, 3.0] {
                    s.case(|| format!("{x}, {y}, direction {i}"), |c| {
                        for sg in [1.0, -1.0] {
                            let (wh, wt) = if x > 20.0 { ([sg, 0.0], [0.0, 1.0]) } else { (cx::tanh([sg * x, y]), cx::tan([sg * y, x])) };
                            let tol = if x > 20.0 { 1e-12 } else { 2e-14 };
                            let a = lift(u, [sg * x, y]);
                            c.close("tanh", Quaternion::<f64>::from(a).tanh(), lift(u, wh), tol);
                            let f = |a: [f64; 4]| Quaternion::new(a[0] as f32, a[1] as f32, a[2] as f32, a[3] as f32);
                            c.close("f32 tanh", f(a).tanh(), lift(u, wh), 4e-6);
                            let a = lift(u, [sg * y, x]);
                            c.close("tan", Quaternion::<f64>::from(a).tan(), lift(u, wt), tol);
                            c.close("f32 tan", f(a).tan(), lift(u, wt), 4e-6);
                        }
                    });
                }
            }
        }
        for (i, u) in dirs.iter().enumerate() {
            for m in [1.0, 8.0, 1024.0, 1048576.0] {
                for e in -46..=24 {
                    s.case(|| format!("-{m} + 2^{e} u, direction {i}"), |c| {
                        let z = [-m, 2f64.powi(e)];
                        let q = Quaternion::<f64>::from(lift(u, z));
                        // where the vector part is not below the precision of the scalar part
                        if z[1] > 64.0 * f64::EPSILON * m {
                            for sg in [1.0, -1.0] {
                                let (z, q) = ([sg * z[0], z[1]], Quaternion::<f64>::from(lift(u, [sg * z[0], z[1]])));
                                c.close("ln", q.ln(), lift(u, cx::ln(z)), 1e-13);
                                c.scaled("argument of ln", q.ln().vector(), model::scale(u, cx::arg(z)), cx::arg(z), 1e-12);
                                c.scaled("arg", q.arg(), cx::arg(z), cx::arg(z), 1e-12);
                                c.close("arg", q.arg(), cx::arg(z), 1e-13);
                            }
                        }
                        // sqrt((|z| - x) / 2), which does not cancel for negative x
                        let w = ((cx::abs(z) - z[0]) / 2.0).sqrt();
                        c.close("sqrt", q.sqrt().map(|x| x / m.sqrt()), lift(u, [z[1] / (2.0 * w), w]).map(|x| x / m.sqrt()), 1e-12);
                        c.close("sqrt(q)^2 = q", q.sqrt().squared().map(|x| x / m), lift(u, z).map(|x| x / m), 1e-12);
                    });
                }
            }
        }
    });
    ctx.bound("inverse functions by value off their cuts: moduli 1.25 .. 2^120 (f32 2^30) at 19 slice angles, some within 1e-3 radians of an axis, and 13 directions at distances 2^-2 .. 2^-20 (f32 2^-8) from each branch point");
    ctx.section("inverse-functions", |s| {
        macro_rules! values { ($c:ident, $t:ident, $rt:expr, $u:expr, $z:expr) => {{
            let (u, z): (&[f64; 3], C) = ($u, $z);
            let a = lift(u, z);
            let q = Quaternion::<$t>::new(a[0] as $t, a[1] as $t, a[2] as $t, a[3] as $t);
            let b = cx::abs([z[0].abs() - 1.0, z[1]]);
            let i = cx::abs([z[0], z[1] - 1.0]);
            // a rounding of the argument moves the values by this much
            let (t1, ti) = ($rt * (1.0 + b.powf(-0.5)), $rt * (1.0 + i.powf(-0.5)));
            // the direction of a short vector part beside a long scalar part is only known this well
            let td = 0.05 * $rt * cx::abs(z) / z[1];
            if z[1] != 0.0 || z[0].abs() < 1.0 {
                $c.close("acos", q.acos(), lift(u, cx::acos(z)), t1);
                $c.close("asin", q.asin(), lift(u, cx::asin(z)), t1);
                if z[1] != 0.0 {
                    $c.close("atanh", q.atanh(), lift(u, cx::atanh(z)), $rt * (1.0 + 1.0 / b));
                }
            }
            if z[1] != 0.0 || z[0] > 1.0 {
                $c.close("acosh", q.acosh(), lift(u, cx::acosh(z)), if z[1] == 0.0 { t1 } else { t1 + td });
            }
            if z[0] != 0.0 || z[1] < 1.0 {
                $c.close("asinh", q.asinh(), lift(u, cx::asinh(z)), ti);
                $c.close("atan", q.atan(), lift(u, cx::atan(z)), $rt * (1.0 + 1.0 / i));
            }
        }}; }
        let mut angles: Vec<C> = (1..12).filter(|k| *k != 6).map(|k| cx::polar(1.0, grid::deg(k as f64 * 15.0))).collect();
        angles.extend([[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0]]);
        for h in [1e-1, 1e-3] { angles.extend([[1.0, h], [h, 1.0], [-h, 1.0], [-1.0, h]]); }
        let around: Vec<C> = (0..24).map(|k| if k % 6 == 0 { [[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.0, -1.0]][k / 6] } else { cx::polar(1.0, grid::deg(k as f64 * 15.0)) }).collect();
        let mut sizes: Vec<f64> = vec![1.25, 1.75, 2.5, 3.0, 5.0, 6.0];
        for e in 2..=16 { sizes.push(2f64.powi(e)); }
        for e in (18..=120).step_by(6) { sizes.push(2f64.powi(e)); }
        for u in dirs.iter().step_by(ctx.pick(4, 1)) {
            for &k in &sizes { for a in &angles {
                let z = [a[0] * k, a[1] * k];
                s.case(|| format!("s = {}, v = {} * {u:?}", z[0], z[1]), |c| values!(c, f64, 2e-13, u, z));
                if k <= 2f64.powi(30) {
                    s.case(|| format!("f32 s = {}, v = {} * {u:?}", z[0], z[1]), |c| values!(c, f32, 1e-5, u, z));
                }
            } }
            for at in [[1.0, 0.0], [-1.0, 0.0], [0.0, 1.0]] { for e in 2..=20 { for a in &around {
                let h = 2f64.powi(-e);
                let z = [at[0] + a[0] * h, at[1] + a[1] * h];
                if z[1] < 0.0 { continue; }
                s.case(|| format!("s = {}, v = {} * {u:?}", z[0], z[1]), |c| values!(c, f64, 2e-13, u, z));
                if e <= 8 {
                    s.case(|| format!("f32 s = {}, v = {} * {u:?}", z[0], z[1]), |c| values!(c, f32, 1e-5, u, z));
                }
            } } }
        }
    });
    ctx.assume("negative real quaternions: ln and sqrt as documented (ln|s|; x axis), powers not asserted");
    ctx.assume("arc functions are not asserted at real quaternions outside the domain of the real function, nor at their singular points");
    ctx.finish();
}
