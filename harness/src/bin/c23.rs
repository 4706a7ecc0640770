//! C23: complex functions.
use cglinalg_core::*;
use cglmc::model::cx;
use cglmc::*;
use core::f64::consts::{FRAC_PI_2, LN_10, LN_2, PI};

type C = [f64; 2];

macro_rules! functions {
    ($c:ident, $t:ident, $z:expr, $tol:expr) => {{
        let z: C = $z;
        let tol: f64 = $tol;
        let x = Complex::<$t>::new(z[0] as $t, z[1] as $t);
        let r = cx::abs(z);
        $c.close("exp", x.exp(), cx::exp(z), tol);
        $c.close("exp2", x.exp2(), cx::exp([z[0] * LN_2, z[1] * LN_2]), tol);
        $c.close("sin", x.sin(), cx::sin(z), tol);
        $c.close("cos", x.cos(), cx::cos(z), tol);
        $c.close("sinh", x.sinh(), cx::sinh(z), tol);
        $c.close("cosh", x.cosh(), cx::cosh(z), tol);
        if cx::abs(cx::cos(z)) > 0.05 {
            $c.close("tan", x.tan(), cx::tan(z), 20.0 * tol);
        }
        if cx::abs(cx::cosh(z)) > 0.05 {
            $c.close("tanh", x.tanh(), cx::tanh(z), 20.0 * tol);
        }
        if r > 0.0 {
            let l = cx::ln(z);
            $c.close("ln", x.ln(), l, tol);
            $c.close("log2", x.log2(), [l[0] / LN_2, l[1] / LN_2], tol);
            $c.close("log10", x.log10(), [l[0] / LN_10, l[1] / LN_10], tol);
            for b in [2.0, 10.0, 3.0, 0.5] {
                let lb = f64::ln(b);
                $c.close("log", x.log(b as $t), [l[0] / lb, l[1] / lb], tol);
            }
            $c.close("exp(ln z) = z", x.ln().exp(), z, 4.0 * tol);
            for p in [0.0, 0.5, 1.0, -1.0, 2.0, 1.5, -0.25, 3.0] {
                let w = cx::exp([p * l[0], p * l[1]]);
                $c.close("powf", x.powf(p as $t), w, 20.0 * tol);
            }
            for w in [[0.0, 1.0], [1.0, 1.0], [-0.5, 0.25], [2.0, 0.0], [0.0, -1.0], [0.0, 0.0]] {
                let e = Complex::<$t>::new(w[0] as $t, w[1] as $t);
                $c.close("powc", x.powc(e), cx::pow(z, w), 50.0 * tol);
            }
            let mut p = [1.0, 0.0];
            let mut q = [1.0, 0.0];
            let inv = cx::div([1.0, 0.0], z);
            for n in 0..=9i32 {
                let size = r.powi(n).max(1.0 / r.powi(n)).max(1.0);
                $c.close("powu", x.powu(n as u32), p, 20.0 * tol);
                $c.close("powi", x.powi(n), p, 20.0 * tol);
                $c.close("powi negative", x.powi(-n), q, 20.0 * tol);
                let _ = size;
                p = cx::mul(p, z);
                q = cx::mul(q, inv);
            }
        }
        // principal roots
        let s = x.sqrt();
        $c.close("sqrt", s, if r == 0.0 { [0.0, 0.0] } else { cx::sqrt(z) }, 4.0 * tol);
        $c.close("sqrt(z)^2 = z", s * s, z, 8.0 * tol);
        let k = x.cbrt();
        $c.close("cbrt", k, if r == 0.0 { [0.0, 0.0] } else { cx::polar(r.cbrt(), cx::arg(z) / 3.0) }, 4.0 * tol);
        $c.close("cbrt(z)^3 = z", k * k * k, z, 8.0 * tol);
        // inverse functions
        let it = 200.0 * tol;
        let sl = 1e-5;
        let strip = |v: f64| v.abs() <= FRAC_PI_2 + sl;
        macro_rules! inv {
            ($name:literal, $got:expr, $f:expr, $range:expr) => {{
                let g = $got;
                let w = [g.re as f64, g.im as f64];
                $c.close(concat!($name, " is a right inverse"), $f(w), z, it);
                let ok: bool = $range(w);
                $c.truth_with(concat!($name, " lies in the principal strip"), ok, || format!("{w:?}"));
            }};
        }
        let d1 = cx::abs([z[0] - 1.0, z[1]]).min(cx::abs([z[0] + 1.0, z[1]]));
        let di = cx::abs([z[0], z[1] - 1.0]).min(cx::abs([z[0], z[1] + 1.0]));
        if d1 > 0.04 {
            let cut = z[1] == 0.0 && z[0] < -1.0;
            inv!("acos", x.acos(), cx::cos, |w: C| (w[0] >= -sl || cut) && w[0].abs() <= PI + sl);
            inv!("asin", x.asin(), cx::sin, |w: C| strip(w[0]));
            inv!("atanh", x.atanh(), cx::tanh, |w: C| strip(w[1]));
            inv!("acosh", x.acosh(), cx::cosh, |w: C| w[0] >= -sl && w[1].abs() <= PI + sl);
        }
        if di > 0.04 {
            inv!("atan", x.atan(), cx::tan, |w: C| strip(w[0]));
            inv!("asinh", x.asinh(), cx::sinh, |w: C| strip(w[1]));
        }
        if z[1] == 0.0 {
            let v = z[0];
            $c.close("real asinh", x.asinh(), [v.asinh(), 0.0], it);
            $c.close("real atan", x.atan(), [v.atan(), 0.0], it);
            if v.abs() < 0.96 {
                $c.close("real acos", x.acos(), [v.acos(), 0.0], it);
                $c.close("real asin", x.asin(), [v.asin(), 0.0], it);
                $c.close("real atanh", x.atanh(), [v.atanh(), 0.0], it);
            }
            if v > 1.04 {
                $c.close("real acosh", x.acosh(), [v.acosh(), 0.0], it);
            }
            if v < 0.0 {
                $c.close("ln of a negative real", x.ln(), [(-v).ln(), PI], tol);
                $c.close("sqrt of a negative real", x.sqrt(), [0.0, (-v).sqrt()], 4.0 * tol);
            }
        }
    }};
}

fn main() {
    let ctx = Ctx::start("C23");
    let step = ctx.grade(0.125, 0.015625, 0.00390625);
    let lim = 4.0;
    let k = (lim / step) as i32;
    let mut pts: Vec<C> = Vec::new();
    for i in -k..=k {
        for j in -k..=k {
            pts.push([i as f64 * step, j as f64 * step]);
        }
    }
    for &x in &[0.1, 0.3, 0.7, 0.9, 1.1, 1.3, 2.7] {
        for (a, b) in [(x, 0.0), (-x, 0.0), (0.0, x), (0.0, -x), (x, 0.125), (x, -0.125), (-x, 0.125), (-x, -0.125), (0.125, x), (-0.125, x), (0.125, -x), (-0.125, -x)] {
            pts.push([a, b]);
        }
    }
    ctx.bound(&format!("{} points: the square [-{lim},{lim}]^2 in steps of {step} (axes and all quadrants) and points next to every branch cut", pts.len()));
    ctx.par("functions-f64", pts.len(), |i, s| {
        let z = pts[i];
        s.case(|| format!("z = {z:?}"), |c| functions!(c, f64, z, 2e-13));
    });
    ctx.par("functions-f32", pts.len(), |i, s| {
        let z = pts[i];
        if z[0].abs() > 2.1 || z[1].abs() > 2.1 || (z[0] as f32 as f64) != z[0] || (z[1] as f32 as f64) != z[1] {
            return;
        }
        s.case(|| format!("f32 z = {z:?}"), |c| functions!(c, f32, z, 4e-6));
    });
    // Power series, independent of polar formulas.
    ctx.par("series", pts.len(), |i, s| {
        let z = pts[i];
        if cx::abs(z) > 3.1 {
            return;
        }
        s.case(|| format!("series at {z:?}"), |c| {
            let x = Complex::new(z[0], z[1]);
            let mut t = [1.0, 0.0];
            let (mut e, mut sn, mut cs, mut sh, mut ch) = (t, [0.0; 2], t, [0.0; 2], t);
            for k in 1..50 {
                t = model::scale(&cx::mul(t, z), 1.0 / k as f64);
                e = model::add(&e, &t);
                let sg = if (k / 2) % 2 == 0 { 1.0 } else { -1.0 };
                if k % 2 == 1 {
                    sn = model::add(&sn, &model::scale(&t, sg));
                    sh = model::add(&sh, &t);
                } else {
                    cs = model::add(&cs, &model::scale(&t, sg));
                    ch = model::add(&ch, &t);
                }
            }
            c.close("exp", x.exp(), e, 1e-12);
            c.close("sin", x.sin(), sn, 1e-12);
            c.close("cos", x.cos(), cs, 1e-12);
            c.close("sinh", x.sinh(), sh, 1e-12);
            c.close("cosh", x.cosh(), ch, 1e-12);
        });
    });
    // Exact integer powers.
    let pmax = ctx.pick(20, 30);
    ctx.bound(&format!("exact powers of small Gaussian integers up to exponent {pmax}, unit-modulus powers up to +-64, every 32-bit exponent with one or two set bits and its neighbours"));
    ctx.section("integer-powers", |s| {
        for a in [[0.0, 1.0], [1.0, 1.0], [-1.0, 1.0], [0.0, -2.0], [2.0, 0.0], [-1.0, 0.0], [1.0, 2.0], [1.0, -1.0]] {
            let mut p = [1.0, 0.0];
            for n in 0..=pmax {
                s.case(|| format!("{a:?}^{n}"), |c| {
                    let x = Complex::new(a[0], a[1]);
                    c.eq("powu", x.powu(n as u32), p);
                    c.eq("powi", x.powi(n), p);
                    if cx::abs(p) < 1e15 {
                        c.close("powi(-n) * powi(n) = 1", x.powi(-n) * Complex::from(p), [1.0, 0.0], 1e-12);
                    }
                });
                p = cx::mul(p, a);
            }
        }
        for d in (0..360).step_by(15) {
            for n in 0..=64i32 {
                s.case(|| format!("cis({d} deg)^+-{n}"), |c| {
                    let t = grid::deg(d as f64);
                    let x = Complex::cis(t);
                    let u = n as f64 * t;
                    c.close("powu", x.powu(n as u32), [u.cos(), u.sin()], 1e-12);
                    c.close("powi", x.powi(n), [u.cos(), u.sin()], 1e-12);
                    c.close("powi(-n)", x.powi(-n), [u.cos(), -u.sin()], 1e-12);
                });
            }
        }
        // Exponents of every bit length: one and two set bits, and their neighbours.
        let mut exps: Vec<u32> = Vec::new();
        for j in 0..32u32 {
            for k in j..32u32 {
                let e = if j == k { 1u32 << j } else { (1u32 << j) + (1u32 << k) };
                for e in [e.wrapping_sub(1), e, e.wrapping_add(1)] {
                    exps.push(e);
                }
            }
            exps.push(0xaaaa_aaaau32 >> j);
        }
        exps.sort();
        exps.dedup();
        for &n in &exps {
            s.case(|| format!("i^+-{n} and (1 + w/{n})^{n}"), |c| {
                let at = |m: u32| [[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.0, -1.0]][(m % 4) as usize];
                c.eq("powu", Complex::<f64>::unit_im().powu(n), at(n));
                c.eq("powu f32", Complex::<f32>::unit_im().powu(n), at(n));
                c.eq("powu(-i)", (-Complex::<f64>::unit_im()).powu(n), at(3 * (n % 4)));
                if n <= i32::MAX as u32 {
                    c.eq("powi", Complex::<f64>::unit_im().powi(n as i32), at(n));
                    c.eq("powi negative", Complex::<f64>::unit_im().powi(-(n as i32)), at(3 * (n % 4)));
                }
                if n >= 16 {
                    let x = Complex::<f64>::new(1.0 + 0.75 / n as f64, -1.25 / n as f64);
                    let (a, b) = (x.re - 1.0, x.im);
                    let ln = [0.5 * (2.0 * a + a * a + b * b).ln_1p(), b.atan2(1.0 + a)];
                    let want = cx::polar((n as f64 * ln[0]).exp(), n as f64 * ln[1]);
                    let tol = 1e-13 + 8.0 * n as f64 * f64::EPSILON;
                    c.close("powu of a base near one", x.powu(n), want, tol);
                    if n <= i32::MAX as u32 {
                        c.close("powi of a base near one", x.powi(n as i32), want, tol);
                        c.close("powi(-n) * powi(n)", x.powi(-(n as i32)) * x.powi(n as i32), [1.0, 0.0], 4.0 * tol);
                    }
                }
            });
        }
        for n in [i32::MAX, i32::MIN, i32::MIN + 1, i32::MAX - 1] {
            s.case(|| format!("i^{n}"), |c| {
                let want = match n.rem_euclid(4) {
                    0 => [1.0, 0.0],
                    1 => [0.0, 1.0],
                    2 => [-1.0, 0.0],
                    _ => [0.0, -1.0],
                };
                c.eq("powi", Complex::<f64>::unit_im().powi(n), want);
                c.eq("powu", Complex::<f64>::unit_im().powu(n.unsigned_abs()), if n < 0 { [want[0], -want[1]] } else { want });
            });
        }
    });
    // Magnitudes: roots and logarithms scale.
    ctx.section("magnitudes", |s| {
        for e in (-60..=60).step_by(6) {
            for d in (-180..=180).step_by(15) {
                s.case(|| format!("2^{e} at {d} degrees"), |c| {
                    let k = 2f64.powi(e);
                    let u = cx::polar(1.0, grid::deg(d as f64));
                    let x = Complex::new(u[0] * k, u[1] * k);
                    c.close("ln", x.ln(), [k.ln(), cx::arg(u)], 1e-12);
                    let un = |z: Complex<f64>, t: f64| [z.re / t, z.im / t];
                    c.close("sqrt", un(x.sqrt(), k.sqrt()), cx::sqrt(u), 1e-12);
                    c.close("cbrt", un(x.cbrt(), k.cbrt()), cx::polar(1.0, cx::arg(u) / 3.0), 1e-12);
                    c.close("squared root", un(x.sqrt().squared(), k), u, 1e-12);
                });
            }
        }
    });
    // Small arguments: results compared relative to their own size.
    ctx.bound("directions every 15 degrees at magnitudes 2^-3 .. 2^-40 (f64) and 2^-3 .. 2^-20 (f32), relative tolerance for exp - 1, sin, tan, sinh, tanh, roots, logarithms and powers");
    ctx.section("small-arguments", |s| {
        for e in 3..=40 {
            for d in (-180..180).step_by(15) {
                let u = cx::polar(1.0, grid::deg(d as f64));
                macro_rules! small { ($c:ident, $t:ident, $rt:literal) => {{
                    let k = 2f64.powi(-e);
                    let x = Complex::<$t>::new((u[0] * k) as $t, (u[1] * k) as $t);
                    let z = [x.re as f64, x.im as f64];
                    $c.rel("sin", x.sin(), cx::sin(z), $rt);
                    $c.rel("tan", x.tan(), cx::tan(z), $rt);
                    $c.rel("sinh", x.sinh(), cx::sinh(z), $rt);
                    $c.rel("tanh", x.tanh(), cx::tanh(z), $rt);
                    $c.rel("exp", x.exp(), cx::exp(z), $rt);
                    $c.rel("imaginary part of exp", x.exp().im, cx::exp(z)[1], $rt);
                    $c.rel("exp2", x.exp2().im, cx::exp([z[0] * LN_2, z[1] * LN_2])[1], $rt);
                    $c.rel("cos", x.cos(), cx::cos(z), $rt);
                    $c.scaled("imaginary part of cos", x.cos().im, cx::cos(z)[1], k * k, $rt);
                    $c.rel("cosh", x.cosh(), cx::cosh(z), $rt);
                    $c.scaled("imaginary part of cosh", x.cosh().im, cx::cosh(z)[1], k * k, $rt);
                    $c.rel("sqrt", x.sqrt(), cx::sqrt(z), $rt);
                    $c.rel("cbrt", x.cbrt(), cx::polar(cx::abs(z).cbrt(), cx::arg(z) / 3.0), $rt);
                    let l = cx::ln(z);
                    $c.rel("ln", x.ln(), l, $rt);
                    $c.rel("log2", x.log2(), [l[0] / LN_2, l[1] / LN_2], $rt);
                    $c.rel("log10", x.log10(), [l[0] / LN_10, l[1] / LN_10], $rt);
                    $c.rel("log", x.log(3.0), [l[0] / 3f64.ln(), l[1] / 3f64.ln()], $rt);
                    $c.rel("powi", x.powi(2), cx::mul(z, z), $rt);
                    $c.rel("powi(-1)", x.powi(-1), cx::div([1.0, 0.0], z), $rt);
                    $c.rel("powu", x.powu(3), cx::mul(z, cx::mul(z, z)), $rt);
                    $c.rel("powf", x.powf(1.5), cx::exp([1.5 * l[0], 1.5 * l[1]]), 50.0 * $rt);
                    $c.rel("powc", x.powc(Complex::new(1.0, 0.5)), cx::pow(z, [1.0, 0.5]), 50.0 * $rt);
                    if $rt < 1e-10 && e < 14 {
                        functions!($c, $t, z, 2e-13 * k.powi(-9).max(1.0));
                    }
                    let it = 4.0 * $rt;
                    for (n, g, w) in [("asin", x.asin(), cx::asin(z)), ("atan", x.atan(), cx::atan(z)), ("asinh", x.asinh(), cx::asinh(z)), ("atanh", x.atanh(), cx::atanh(z)), ("acos", x.acos(), cx::acos(z))] {
                        $c.close(n, g, w, it);
                    }
                }}; }
                s.case(|| format!("2^-{e} at {d} degrees"), |c| small!(c, f64, 1e-13));
                if e <= 20 {
                    s.case(|| format!("f32 2^-{e} at {d} degrees"), |c| small!(c, f32, 4e-6));
                }
            }
        }
    });
    // Exponentials and powers over wide ranges, relative to the modulus of the result.
    ctx.bound("exponentials and circular/hyperbolic functions with growth exponents up to +-600 (f32 +-80) and phases up to 1e6; logarithms, roots and powers at moduli 2^-60 .. 2^60 (f32 2^-24 .. 2^24) in 28 directions, some within 1e-3 .. 1e-9 of an axis");
    ctx.section("wide-arguments", |s| {
        macro_rules! wide { ($t:ident, $rt:literal, $top:literal) => {
            for g in [0.001f64, 0.5, 3.0, 5.0, 7.0, 8.5, 10.0, 15.0, 20.0, 37.0, 50.0, 80.0, 100.0, 200.0, 300.0, 450.0, 600.0] {
                if g > $top { continue; }
                for f in [0.0, 1e-5, 0.3, 1.0, -2.0, 1.5, 3.0, -3.125, 10.0, -31.0, 100.0, 1000.0, 1e6] { for sg in [1.0, -1.0] {
                    s.case(|| format!(concat!(stringify!($t), " growth {} phase {}"), sg * g, f), |c| {
                        let x = Complex::<$t>::new((sg * g) as $t, f as $t);
                        let z = [x.re as f64, x.im as f64];
                        let y = Complex::<$t>::new(x.im, x.re);
                        let v = [z[1], z[0]];
                        c.rel("exp", x.exp(), cx::exp(z), $rt);
                        c.rel("exp2", x.exp2(), cx::exp([z[0] * LN_2, z[1] * LN_2]), $rt * (1.0 + g + f64::abs(f) * 0.1));
                        c.rel("sinh", x.sinh(), cx::sinh(z), $rt);
                        c.rel("cosh", x.cosh(), cx::cosh(z), $rt);
                        c.rel("sin", y.sin(), cx::sin(v), $rt);
                        c.rel("cos", y.cos(), cx::cos(v), $rt);
                    });
                } }
            }
        }; }
        wide!(f64, 1e-13, 600.0);
        wide!(f32, 4e-6, 80.0);
        let mut dirs: Vec<f64> = (-11..=12).map(|k| k as f64 * 15.0).collect();
        for a in [-180.0, -90.0, 0.0, 90.0, 180.0] { for h in [0.05, 0.0005, 5e-8] { if a > -180.0 { dirs.push(a - h); } if a < 180.0 { dirs.push(a + h); } } }
        macro_rules! moduli { ($t:ident, $rt:literal, $top:literal, $step:literal) => {
            for e in (-$top..=$top).step_by($step).chain([-1, 1]) { for m in [1.0, 1.0 + 1e-5, 1.375] { for &d in &dirs {
                s.case(|| format!(concat!(stringify!($t), " {} * 2^{} at {} degrees"), m, e, d), |c| {
                    let u = cx::polar(m * 2f64.powi(e), grid::deg(d));
                    let x = Complex::<$t>::new(u[0] as $t, u[1] as $t);
                    let z = [x.re as f64, x.im as f64];
                    let l = cx::ln(z);
                    c.close("ln", x.ln(), l, $rt);
                    c.close("log2", x.log2(), [l[0] / LN_2, l[1] / LN_2], $rt);
                    c.close("log10", x.log10(), [l[0] / LN_10, l[1] / LN_10], $rt);
                    for b in [2.0, 10.0, 0.25, 1.5, 1000.0] {
                        let lb = f64::ln(b);
                        c.close("log", x.log(b as $t), [l[0] / lb, l[1] / lb], $rt);
                    }
                    c.rel("sqrt", x.sqrt(), cx::sqrt(z), $rt);
                    c.rel("cbrt", x.cbrt(), cx::polar(cx::abs(z).cbrt(), cx::arg(z) / 3.0), $rt);
                    for p in [0.5, 1.0, -1.0, 2.0, -1.5, -0.25, 0.001, 0.1] {
                        let t = $rt * (4.0 + 8.0 * (p * l[0]).abs());
                        if (p * l[0]).abs() < (if $rt < 1e-10 { 600.0 } else { 60.0 }) {
                            c.rel("powf", x.powf(p as $t), cx::exp([p as $t as f64 * l[0], p as $t as f64 * l[1]]), t);
                            c.rel("powc", x.powc(Complex::new(p as $t, 0.25)), cx::pow(z, [p as $t as f64, 0.25]), 2.0 * t);
                        }
                    }
                    let mut p = [1.0, 0.0];
                    for n in 0..=9i32 {
                        let size = n as f64 * l[0].abs();
                        if size < (if $rt < 1e-10 { 340.0 } else { 40.0 }) {
                            let q = cx::div([1.0, 0.0], p);
                            c.rel("powu", x.powu(n as u32), p, $rt * (1 + n) as f64);
                            c.rel("powi", x.powi(n), p, $rt * (1 + n) as f64);
                            c.rel("powi negative", x.powi(-n), q, $rt * (2 + n) as f64);
                        }
                        p = cx::mul(p, z);
                    }
                });
            } } }
        }; }
        moduli!(f64, 1e-13, 60, 6);
        moduli!(f32, 4e-6, 24, 4);
    });
    // Points beside the axes, where the inverse functions have their cuts.
    ctx.section("beside-the-axes", |s| for e in [3, 8, 14, 20, 30] {
        let h = 2f64.powi(-e);
        for v in [0.1, 0.25, 0.5, 0.9, 1.1, 1.5, 2.0, 3.75] { for a in [1.0, -1.0] { for b in [1.0, -1.0] {
            for z in [[a * v, b * h], [b * h, a * v]] {
                s.case(|| format!("z = {z:?}"), |c| functions!(c, f64, z, 2e-13 * (v as f64).powi(-9).max(1.0)));
            }
        } } }
    });
    // Tangents saturate for large arguments.
    ctx.bound("tangents at distances 2, 2.25, .. 20 (tolerance 2e-14) and up to 1e6 from the axis");
    ctx.section("large-arguments", |s| {
        for k in 8..=80 {
            for y in [0.0, 0.3, 1.0, -2.0, 1.5, 3.0] {
                let x = k as f64 * 0.25;
                s.case(|| format!("{x}, {y}"), |c| {
                    for sg in [1.0, -1.0] {
                        let w = cx::tanh([sg * x, y]);
                        c.close("tanh", Complex::new(sg * x, y).tanh(), w, 2e-14);
                        let w = cx::tan([y, sg * x]);
                        c.close("tan", Complex::new(y, sg * x).tan(), w, 2e-14);
                        let w = cx::tanh([sg * x, y as f32 as f64]);
                        c.close("f32 tanh", Complex::new((sg * x) as f32, y as f32).tanh(), w, 2e-6);
                        let w = cx::tan([y as f32 as f64, sg * x]);
                        c.close("f32 tan", Complex::new(y as f32, (sg * x) as f32).tan(), w, 2e-6);
                    }
                });
            }
        }
        for x in [20.0, 40.0, 100.0, 300.0, 354.0, 356.0, 400.0, 709.0, 720.0, 1e4, 1e6] {
            for y in [0.0, 0.3, 1.0, -2.0] {
                s.case(|| format!("{x}, {y}"), |c| {
                    for sg in [1.0, -1.0] {
                        let z = Complex::new(sg * x, y);
                        c.close("tanh", z.tanh(), [sg, 0.0], 1e-12);
                        c.close("tan", Complex::new(y, sg * x).tan(), [0.0, sg], 1e-12);
                        c.close("f32 tanh", Complex::new((sg * x) as f32, y as f32).tanh(), [sg, 0.0], 1e-6);
                        let q = Quaternion::new(sg * x, y, 0.0, 0.0);
                        c.close("quaternion tanh", q.tanh(), [sg, 0.0, 0.0, 0.0], 1e-12);
                        let q = Quaternion::new(y, 0.0, sg * x, 0.0);
                        c.close("quaternion tan", q.tan(), [0.0, 0.0, sg, 0.0], 1e-12);
                    }
                });
            }
        }
    });
    // Inverse functions far from the origin and next to their branch points, by value.
    ctx.bound("inverse functions by value off their cuts: moduli 1.25 .. 2^120 (f32 2^30) in 36 directions, some within 1e-6 radians of an axis, and 24 directions at distances 2^-2 .. 2^-26 (f32 2^-10) from each branch point");
    ctx.section("inverse-functions", |s| {
        macro_rules! values { ($c:ident, $t:ident, $rt:expr, $z:expr) => {{
            let x = Complex::<$t>::new($z[0] as $t, $z[1] as $t);
            let z = [x.re as f64, x.im as f64];
            let (p, m) = (cx::abs([z[0] - 1.0, z[1]]), cx::abs([z[0] + 1.0, z[1]]));
            let (u, d) = (cx::abs([z[0], z[1] - 1.0]), cx::abs([z[0], z[1] + 1.0]));
            // a rounding of the argument moves the values by this much
            let t1 = $rt * (1.0 + p.min(m).powf(-0.5));
            let ti = $rt * (1.0 + u.min(d).powf(-0.5));
            if z[1] != 0.0 || z[0].abs() < 1.0 {
                $c.close("acos", x.acos(), cx::acos(z), t1);
                $c.close("asin", x.asin(), cx::asin(z), t1);
                $c.close("atanh", x.atanh(), cx::atanh(z), $rt * (1.0 + 1.0 / p.min(m)));
            }
            if z[1] != 0.0 || z[0] > 1.0 {
                $c.close("acosh", x.acosh(), cx::acosh(z), t1);
            }
            if z[0] != 0.0 || z[1].abs() < 1.0 {
                $c.close("asinh", x.asinh(), cx::asinh(z), ti);
                $c.close("atan", x.atan(), cx::atan(z), $rt * (1.0 + 1.0 / u.min(d)));
            }
        }}; }
        let axis = [[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.0, -1.0]];
        let mut dirs: Vec<C> = (0..24).filter(|k| k % 6 != 0).map(|k| cx::polar(1.0, grid::deg(k as f64 * 15.0))).collect();
        dirs.extend(axis);
        let around = dirs.clone();
        for a in axis { for h in [1e-2, 1e-6] { for sg in [1.0, -1.0] { dirs.push([a[0] - sg * h * a[1], a[1] + sg * h * a[0]]); } } }
        let mut sizes: Vec<f64> = vec![1.25, 1.75, 2.5, 3.0, 5.0, 6.0];
        for e in 2..=16 { sizes.push(2f64.powi(e)); sizes.push(1.4375 * 2f64.powi(e)); }
        for e in (17..=120).step_by(3) { sizes.push(2f64.powi(e)); }
        for &k in &sizes { for u in &dirs {
            let z = [u[0] * k, u[1] * k];
            s.case(|| format!("z = {z:?}"), |c| values!(c, f64, 1e-13, z));
            if k <= 2f64.powi(30) {
                s.case(|| format!("f32 z = {z:?}"), |c| values!(c, f32, 4e-6, z));
            }
        } }
        for a in axis { for e in 2..=26 { for u in &around {
            let h = 2f64.powi(-e);
            let z = [a[0] + u[0] * h, a[1] + u[1] * h];
            s.case(|| format!("z = {z:?}"), |c| values!(c, f64, 1e-13, z));
            if e <= 10 {
                s.case(|| format!("f32 z = {z:?}"), |c| values!(c, f32, 4e-6, z));
            }
        } } }
    });
    ctx.assume("inverse functions are not asserted by value on their cuts (there the right-inverse law and the principal strip are), nor at the branch points themselves");
    ctx.assume("on a branch cut either side is accepted, except where the library documents the principal value (ln and sqrt of negative reals)");
    ctx.finish();
}
