//! C22: complex numbers form a field in every operand form.
use cglinalg_core::*;
use cglinalg_trigonometry::*;
use cglmc::model::cx;
use cglmc::*;

type C = [f64; 2];
macro_rules! forms2 {
    ($c:ident, $name:literal, $x:ident $op:tt $y:ident, $want:expr, $tol:expr) => {{
        let w = $want;
        $c.rel(concat!($name, " value-value"), $x $op $y, w, $tol);
        $c.rel(concat!($name, " value-ref"), $x $op &$y, w, $tol);
        $c.rel(concat!($name, " ref-value"), &$x $op $y, w, $tol);
        $c.rel(concat!($name, " ref-ref"), &$x $op &$y, w, $tol);
    }};
}
macro_rules! assign {
    ($c:ident, $name:literal, $x:ident $op:tt $y:expr, $want:expr, $tol:expr) => {{
        let mut z = $x;
        z $op $y;
        $c.rel($name, z, $want, $tol);
    }};
}
/// scalar - complex: a listed defect keeps the sign of the imaginary part (a test pins it).
macro_rules! scalar_minus {
    ($c:ident, $k:expr, $z:expr, $want:expr, $listed:expr) => {{
        let (k, z) = ($k, $z);
        $c.close_or_known("scalar - complex", "scalar - complex", k - z, $want, $listed, 0.0);
        $c.close_or_known("scalar - &complex", "scalar - &complex", k - &z, $want, $listed, 0.0);
        $c.close_or_known("&scalar - complex", "&scalar - complex", &k - z, $want, $listed, 0.0);
        $c.close_or_known("&scalar - &complex", "&scalar - &complex", &k - &z, $want, $listed, 0.0);
    }};
}
macro_rules! ring {
    ($c:ident, $t:ident, $a:expr, $b:expr, $k:expr) => {{
        let (a, b, k): (C, C, f64) = ($a, $b, $k);
        let (x, y, kk) = (Complex::<$t>::new(a[0] as $t, a[1] as $t), Complex::<$t>::new(b[0] as $t, b[1] as $t), k as $t);
        let e = 0.0;
        forms2!($c, "a+b", x + y, [a[0] + b[0], a[1] + b[1]], e);
        forms2!($c, "a-b", x - y, [a[0] - b[0], a[1] - b[1]], e);
        let p = cx::mul(a, b);
        forms2!($c, "a*b", x * y, p, e);
        assign!($c, "a+=b", x += y, [a[0] + b[0], a[1] + b[1]], e);
        assign!($c, "a+=&b", x += &y, [a[0] + b[0], a[1] + b[1]], e);
        assign!($c, "a-=b", x -= y, [a[0] - b[0], a[1] - b[1]], e);
        assign!($c, "a-=&b", x -= &y, [a[0] - b[0], a[1] - b[1]], e);
        assign!($c, "a*=b", x *= y, p, e);
        assign!($c, "a*=&b", x *= &y, p, e);
        forms2!($c, "a+k", x + kk, [a[0] + k, a[1]], e);
        forms2!($c, "k+a", kk + x, [a[0] + k, a[1]], e);
        forms2!($c, "a-k", x - kk, [a[0] - k, a[1]], e);
        scalar_minus!($c, kk, x, [k - a[0], -a[1]], [k - a[0], a[1]]);
        forms2!($c, "a*k", x * kk, [a[0] * k, a[1] * k], e);
        forms2!($c, "k*a", kk * x, [a[0] * k, a[1] * k], e);
        assign!($c, "a+=k", x += kk, [a[0] + k, a[1]], e);
        assign!($c, "a+=&k", x += &kk, [a[0] + k, a[1]], e);
        assign!($c, "a-=k", x -= kk, [a[0] - k, a[1]], e);
        assign!($c, "a-=&k", x -= &kk, [a[0] - k, a[1]], e);
        assign!($c, "a*=k", x *= kk, [a[0] * k, a[1] * k], e);
        assign!($c, "a*=&k", x *= &kk, [a[0] * k, a[1] * k], e);
        $c.eq("scale", Complex::scale(x, kk), [a[0] * k, a[1] * k]);
        if k != 0.0 {
            let r = [a[0] % k, a[1] % k];
            forms2!($c, "a%k", x % kk, r, e);
            assign!($c, "a%=k", x %= kk, r, e);
            assign!($c, "a%=&k", x %= &kk, r, e);
            // exact quotients
            let ak = Complex::<$t>::new((a[0] * k) as $t, (a[1] * k) as $t);
            forms2!($c, "(ak)/k", ak / kk, a, 1e-15);
            assign!($c, "ak/=k", ak /= kk, a, 1e-15);
            assign!($c, "ak/=&k", ak /= &kk, a, 1e-15);
            $c.close("unscale", Complex::unscale(ak, kk), a, 1e-15);
        }
        if b != [0.0, 0.0] {
            let q = Complex::<$t>::new(p[0] as $t, p[1] as $t);
            forms2!($c, "(ab)/b", q / y, a, 2e-6);
            assign!($c, "ab/=b", q /= y, a, 2e-6);
            assign!($c, "ab/=&b", q /= &y, a, 2e-6);
            let n = k * (b[0] * b[0] + b[1] * b[1]);
            let s = n as $t;
            forms2!($c, "k|b|^2 / b", s / y, [k * b[0], -k * b[1]], 2e-6);
        }
        $c.eq("-a", -x, [-a[0], -a[1]]);
        $c.eq("-&a", -&x, [-a[0], -a[1]]);
        $c.eq("conjugate", x.conjugate(), [a[0], -a[1]]);
        $c.eq("squared", x.squared(), cx::mul(a, a));
        $c.eq("cubed", x.cubed(), cx::mul(a, cx::mul(a, a)));
        let n2 = a[0] * a[0] + a[1] * a[1];
        $c.eq("modulus_squared", x.modulus_squared(), n2);
        $c.eq("norm_squared", Complex::norm_squared(x), n2);
        $c.eq("magnitude_squared", x.magnitude_squared(), n2);
        $c.eq("a conj(a)", x * x.conjugate(), [n2, 0.0]);
        $c.eq("l1_norm", x.l1_norm(), a[0].abs() + a[1].abs());
        $c.eq("|ab|^2 = |a|^2|b|^2", (x * y).modulus_squared(), x.modulus_squared() * y.modulus_squared());
        $c.eq("real", x.real(), a[0]);
        $c.eq("imaginary", x.imaginary(), a[1]);
        $c.eq("is_real", x.is_real(), a[1] == 0.0);
        $c.eq("is_imaginary", x.is_imaginary(), a[0] == 0.0);
        $c.eq("is_zero", x.is_zero(), a == [0.0, 0.0]);
        $c.eq("is_one", x.is_one(), a == [1.0, 0.0]);
        $c.eq("is_identity", x.is_identity(), a == [1.0, 0.0]);
        $c.eq("from_real", Complex::from_real(x.re), [a[0], 0.0]);
        $c.eq("from_imaginary", Complex::from_imaginary(x.im), [0.0, a[1]]);
        $c.eq("From<S>", Complex::from(x.re), [a[0], 0.0]);
        $c.eq("From<&S>", Complex::from(&x.re), [a[0], 0.0]);
        $c.eq("operands unchanged", (x, y), (a, b));
    }};
}
macro_rules! field {
    ($c:ident, $t:ident, $a:expr, $b:expr, $k:expr, $tol:expr) => {{
        let (a, b, k): (C, C, f64) = ($a, $b, $k);
        let (x, y, kk) = (Complex::<$t>::new(a[0] as $t, a[1] as $t), Complex::<$t>::new(b[0] as $t, b[1] as $t), k as $t);
        if b != [0.0, 0.0] {
            let q = cx::div(a, b);
            forms2!($c, "a/b", x / y, q, $tol);
            assign!($c, "a/=b", x /= y, q, $tol);
            assign!($c, "a/=&b", x /= &y, q, $tol);
            forms2!($c, "k/b", kk / y, cx::div([k, 0.0], b), $tol);
        }
        if k != 0.0 {
            let q = [a[0] / k, a[1] / k];
            forms2!($c, "a/k", x / kk, q, $tol);
            assign!($c, "a/=k", x /= kk, q, $tol);
            assign!($c, "a/=&k", x /= &kk, q, $tol);
            $c.close("unscale", Complex::unscale(x, kk), q, $tol);
        }
        let n = cx::abs(a);
        for (m, g) in [("modulus", x.modulus()), ("norm", Complex::norm(x)), ("magnitude", x.magnitude()), ("l2_norm", x.l2_norm())] {
            $c.close(m, g, n, $tol);
        }
        if a != [0.0, 0.0] {
            let inv = cx::div([1.0, 0.0], a);
            $c.close("try_inverse", x.try_inverse(), Some(inv), $tol);
            $c.close("inverse", x.inverse(), inv, $tol);
            $c.truth("is_invertible", x.is_invertible());
            $c.close("a*a^-1", x * x.inverse(), [1.0, 0.0], $tol);
            let (r, t) = x.polar_decomposition();
            $c.close("polar modulus", r, n, $tol);
            $c.close("polar angle", t, cx::arg(a), $tol);
            $c.close("arg", x.arg(), cx::arg(a), $tol);
            $c.close("polar form rebuilds", Complex::from_polar_decomposition(r, t), a, 4.0 * $tol);
        } else {
            $c.truth("zero has no inverse", x.try_inverse().is_none());
            $c.truth("zero is not invertible", !x.is_invertible());
        }
        $c.truth("is_finite", x.is_finite() && !x.is_nan() && !x.is_infinite());
    }};
}
macro_rules! unsigned_left {
    ($ctx:ident, $($t:ident)*) => {$(
        $ctx.section(concat!("scalar-forms-", stringify!($t)), |s| {
            for k in 0..=8u8 { for re in 0..=8u8 { for im in 0..=4u8 {
                s.case(|| format!("{k}, {re} + {im}i"), |c| {
                    let (kk, z) = (k as $t, Complex::<$t>::new(re as $t, im as $t));
                    let (kf, rf, jf) = (k as f64, re as f64, im as f64);
                    forms2!(c, "k+z", kk + z, [kf + rf, jf], 0.0);
                    forms2!(c, "z+k", z + kk, [kf + rf, jf], 0.0);
                    forms2!(c, "k*z", kk * z, [kf * rf, kf * jf], 0.0);
                    forms2!(c, "z*k", z * kk, [kf * rf, kf * jf], 0.0);
                    if k >= re && im == 0 {
                        scalar_minus!(c, kk, z, [kf - rf, 0.0], [kf - rf, 0.0]);
                    }
                    if re >= k {
                        forms2!(c, "z-k", z - kk, [rf - kf, jf], 0.0);
                    }
                });
            }}}
        });
    )*};
}
macro_rules! signed_div {
    ($ctx:ident, $($t:ident)*) => {$(
        $ctx.section(concat!("scalar-quotient-", stringify!($t)), |s| {
            for k in -2..=2i8 { for re in -3..=3i8 { for im in -3..=3i8 {
                if re == 0 && im == 0 { continue; }
                s.case(|| format!("{k} |z|^2 / z, z = {re} + {im}i"), |c| {
                    let z = Complex::<$t>::new(re as $t, im as $t);
                    let n = (k * (re * re + im * im)) as $t;
                    let w = [k as f64 * re as f64, -(k as f64) * im as f64];
                    forms2!(c, "n/z", n / z, w, 2e-6);
                    let kk = k as $t;
                    scalar_minus!(c, kk, z, [k as f64 - re as f64, -(im as f64)], [k as f64 - re as f64, im as f64]);
                });
            }}}
        });
    )*};
}

fn main() {
    let ctx = Ctx::start("C22");
    let alpha: Vec<f64> = {
        let mut v = vec![0.0, 1.0, -1.0, 2.0, -3.0, 5.0];
        if ctx.thorough() {
            v.extend([-2.0, 3.0, 4.0, -7.0, 8.0, 11.0]);
        }
        v
    };
    let ks = [2.0, -3.0, 0.0, 1.0, 5.0];
    let n = grid::count(alpha.len(), 2);
    ctx.bound(&format!("all pairs of complex numbers over {alpha:?}, all scalars {ks:?}; f64, f32, i32, i64, i16, isize, i128; exact comparison of ring operations"));
    ctx.par("ring", n, |i, s| {
        let a: C = grid::tuple(&alpha, i);
        for j in 0..n {
            let b: C = grid::tuple(&alpha, j);
            for k in ks {
                s.case(|| format!("a = {a:?}, b = {b:?}, k = {k}"), |c| {
                    ring!(c, f64, a, b, k);
                    ring!(c, f32, a, b, k);
                    ring!(c, i32, a, b, k);
                    ring!(c, i64, a, b, k);
                    ring!(c, i16, a, b, k);
                    ring!(c, isize, a, b, k);
                    ring!(c, i128, a, b, k);
                });
            }
        }
    });
    ctx.par("field", n, |i, s| {
        let a: C = grid::tuple(&alpha, i);
        for j in 0..n {
            let b: C = grid::tuple(&alpha, j);
            for k in ks {
                s.case(|| format!("a = {a:?}, b = {b:?}, k = {k}"), |c| {
                    field!(c, f64, a, b, k, 1e-14);
                    field!(c, f32, a, b, k, 4e-6);
                });
            }
        }
    });
    ctx.bound("quotients, moduli and inverses at magnitudes 2^-400 .. 2^400 (f64) and 2^-20 .. 2^20 (f32) of both operands");
    ctx.section("magnitudes", |s| {
        for (i, a) in [[3.0, -4.0], [1.0, 2.0], [-5.0, 0.5], [0.0, 7.0], [-2.0, 0.0]].into_iter().enumerate() {
            for b in [[1.0, -1.0], [0.25, 3.0], [-2.0, -7.0], [0.0, -1.0], [4.0, 0.0]] {
                const EXPONENTS: &[i32] = &[-400, -300, -200, -120, -100, -80, -60, -48, -40, -28, -20, -12, -4, 0, 4, 12, 20, 28, 40, 60, 120, 200, 300, 400];
                for &e in EXPONENTS {
                    for &g in EXPONENTS {
                        if (e - g).abs() > 700 || (e + g).abs() > 700 {
                            continue;
                        }
                        let (u, v) = (2f64.powi(e), 2f64.powi(g));
                        s.case(|| format!("2^{e} {a:?} and 2^{g} {b:?} (#{i})"), |c| {
                            let x = Complex::new(a[0] * u, a[1] * u);
                            let y = Complex::new(b[0] * v, b[1] * v);
                            let un = |z: Complex<f64>, t: f64| [z.re / t, z.im / t];
                            c.eq("a*b", un(x * y, u * v), cx::mul(a, b));
                            c.close("a/b", un(x / y, u / v), cx::div(a, b), 1e-14);
                            c.close("modulus", x.modulus() / u, cx::abs(a), 1e-14);
                            let q = cx::div(a, b);
                            c.close("&a/b", un(&x / y, u / v), q, 1e-14);
                            c.close("a/&b", un(x / &y, u / v), q, 1e-14);
                            c.close("&a/&b", un(&x / &y, u / v), q, 1e-14);
                            { let mut z = x; z /= y; c.close("a/=b", un(z, u / v), q, 1e-14); }
                            { let mut z = x; z /= &y; c.close("a/=&b", un(z, u / v), q, 1e-14); }
                            if e >= -48 {
                                c.truth("is_invertible", x.is_invertible());
                            }
                            c.close("inverse", un(x.inverse(), 1.0 / u), cx::div([1.0, 0.0], a), 1e-14);
                            c.close("try_inverse", x.try_inverse().map(|z| un(z, 1.0 / u)), Some(cx::div([1.0, 0.0], a)), 1e-14);
                            c.close("arg", x.arg(), cx::arg(a), 1e-14);
                            if e.abs() > 40 {
                                return;
                            }
                            let h = Complex::new((a[0] * u.sqrt()) as f32, (a[1] * u.sqrt()) as f32);
                            c.truth("f32 invertible", h.is_invertible() && h.try_inverse().is_some());
                        });
                    }
                }
            }
        }
    });
    ctx.bound("ring operations in every form with all operands rescaled by 2^-40 .. 2^40 (f64) and 2^-20 .. 2^20 (f32), exactly");
    ctx.section("ring-rescaled", |s| {
        let pts: &[C] = &[[3.0, -4.0], [1.0, 2.0], [-5.0, 0.5], [0.0, 7.0], [-2.0, 0.0], [0.25, 3.0]];
        for e in (-40..=40).step_by(ctx.pick(10, 2)) {
            for a in pts {
                for b in pts {
                    for k in [2.0, -3.0, 0.5] {
                        let (u, h) = (2f64.powi(e), 2f64.powi(e / 2));
                        s.case(|| format!("2^{e} times a = {a:?}, b = {b:?}, k = {k}"), |c| {
                            ring!(c, f64, [a[0] * u, a[1] * u], [b[0] * u, b[1] * u], k * u);
                            ring!(c, f32, [a[0] * h, a[1] * h], [b[0] * h, b[1] * h], k * h);
                        });
                    }
                }
            }
        }
    });
    // operands of mixed sizes, nearly real, nearly unit and nearly equal: sums and scalar products
    // to the last bit, products and quotients to the rounding of their terms
    const MIXED: &[f64] = &[1.0 / 3.0, 1.0 + 1.0 / 262144.0, -0.999999, 1048577.0, 3.0 / 4194304.0, -7.0e12, 1e-9, 0.0];
    ctx.bound(&format!("ring and quotient operations in every form on all pairs of complex numbers over {MIXED:?}"));
    let mm = grid::count(MIXED.len(), 2);
    ctx.par("mixed", mm, |i, s| {
        let a: C = grid::tuple(MIXED, i);
        for j in 0..mm {
            let b: C = grid::tuple(MIXED, j);
            let k = [0.1, 1.000001, -0.999999, 3e-7, 1048577.0][(i + j) % 5];
            s.case(|| format!("a = {a:?}, b = {b:?}, k = {k}"), |c| {
                let (x, y) = (Complex::from(a), Complex::from(b));
                macro_rules! eq2 { ($n:literal, $x:ident $op:tt $y:ident, $w:expr) => {{
                    let w: C = $w;
                    c.eq(concat!($n, " value-value"), $x $op $y, w);
                    c.eq(concat!($n, " value-ref"), $x $op &$y, w);
                    c.eq(concat!($n, " ref-value"), &$x $op $y, w);
                    c.eq(concat!($n, " ref-ref"), &$x $op &$y, w);
                }}; }
                macro_rules! asg { ($n:literal, $op:tt $y:ident, $w:expr) => {{
                    let w: C = $w;
                    { let mut z = x; z $op $y; c.eq($n, z, w); }
                    { let mut z = x; z $op &$y; c.eq(concat!($n, " ref"), z, w); }
                }}; }
                eq2!("a+b", x + y, [a[0] + b[0], a[1] + b[1]]);
                eq2!("a-b", x - y, [a[0] - b[0], a[1] - b[1]]);
                asg!("a+=b", += y, [a[0] + b[0], a[1] + b[1]]);
                asg!("a-=b", -= y, [a[0] - b[0], a[1] - b[1]]);
                eq2!("a+k", x + k, [a[0] + k, a[1]]);
                eq2!("k+a", k + x, [a[0] + k, a[1]]);
                eq2!("a-k", x - k, [a[0] - k, a[1]]);
                eq2!("a*k", x * k, [a[0] * k, a[1] * k]);
                eq2!("k*a", k * x, [a[0] * k, a[1] * k]);
                asg!("a+=k", += k, [a[0] + k, a[1]]);
                asg!("a-=k", -= k, [a[0] - k, a[1]]);
                asg!("a*=k", *= k, [a[0] * k, a[1] * k]);
                c.eq("scale", Complex::scale(x, k), [a[0] * k, a[1] * k]);
                eq2!("a%k", x % k, [a[0] % k, a[1] % k]);
                asg!("a%=k", %= k, [a[0] % k, a[1] % k]);
                c.eq("conjugate", x.conjugate(), [a[0], -a[1]]);
                c.eq("-a", -x, [-a[0], -a[1]]);
                c.eq("-&a", -&x, [-a[0], -a[1]]);
                c.eq("l1_norm", x.l1_norm(), a[0].abs() + a[1].abs());
                scalar_minus!(c, k, x, [k - a[0], -a[1]], [k - a[0], a[1]]);
                // component by component, relative to the terms each is a sum of
                let parts = |c: &mut Case, n: &str, g: Complex<f64>, w: C, size: C| {
                    c.scaled(n, g.re, w[0], size[0], 1e-15);
                    c.scaled(n, g.im, w[1], size[1], 1e-15);
                };
                let ab = |p: C, q: C| [(p[0] * q[0]).abs() + (p[1] * q[1]).abs(), (p[0] * q[1]).abs() + (p[1] * q[0]).abs()];
                let (p, sp) = (cx::mul(a, b), ab(a, b));
                parts(c, "a*b", x * y, p, sp);
                parts(c, "&a*b", &x * y, p, sp);
                parts(c, "a*&b", x * &y, p, sp);
                parts(c, "&a*&b", &x * &y, p, sp);
                { let mut z = x; z *= y; parts(c, "a*=b", z, p, sp); }
                { let mut z = x; z *= &y; parts(c, "a*=&b", z, p, sp); }
                parts(c, "squared", x.squared(), cx::mul(a, a), ab(a, a));
                let n2 = a[0] * a[0] + a[1] * a[1];
                c.scaled("modulus_squared", x.modulus_squared(), n2, n2, 1e-15);
                c.scaled("modulus", x.modulus(), a[0].hypot(a[1]), a[0].hypot(a[1]), 2e-15);
                for (n, g) in [("a/k", x / k), ("a/&k", x / &k), ("&a/k", &x / k), ("&a/&k", &x / &k), ("unscale", Complex::unscale(x, k)), ("a/=k", { let mut z = x; z /= k; z }), ("a/=&k", { let mut z = x; z /= &k; z })] {
                    c.scaled(n, g.re, a[0] / k, (a[0] / k).abs(), 1e-15);
                    c.scaled(n, g.im, a[1] / k, (a[1] / k).abs(), 1e-15);
                }
                if b != [0.0, 0.0] {
                    // a quotient is asserted as a whole number, relative to its modulus
                    let n = b[0].hypot(b[1]);
                    let q = cx::mul([a[0] / n, a[1] / n], [b[0] / n, -b[1] / n]);
                    let m = (a[0] / n).hypot(a[1] / n);
                    for (n, g) in [("a/b", x / y), ("a/&b", x / &y), ("&a/b", &x / y), ("&a/&b", &x / &y), ("a/=b", { let mut z = x; z /= y; z }), ("a/=&b", { let mut z = x; z /= &y; z })] {
                        c.scaled(n, g, q, m, 1e-14);
                    }
                    let w = [k * (b[0] / n) / n, -k * (b[1] / n) / n];
                    for (n1, g) in [("k/b", k / y), ("k/&b", k / &y), ("&k/b", &k / y), ("&k/&b", &k / &y)] {
                        c.scaled(n1, g, w, k.abs() / n, 1e-14);
                    }
                    c.scaled("inverse", y.inverse(), [(b[0] / n) / n, -(b[1] / n) / n], 1.0 / n, 1e-14);
                    c.scaled("arg", y.arg(), b[1].atan2(b[0]), b[1].atan2(b[0]).abs(), 1e-14);
                    let (r, t) = y.polar_decomposition();
                    c.scaled("polar form rebuilds", Complex::from_polar_decomposition(r, t), b, n, 1e-14);
                }
            });
        }
    });
    let angs = grid::angles(ctx.grade(15, 5, 1), -720, 720);
    ctx.bound(&format!("polar forms: {} angles x 5 moduli, radians and degrees", angs.len()));
    ctx.section("polar", |s| {
        for &t in &angs {
            for r in [1.0, 2.0, 0.25, 1024.0, 0.0] {
                s.case(|| format!("{r} at {} degrees", t.to_degrees()), |c| {
                    let w = cx::polar(r, t);
                    c.close("from_polar_decomposition rad", Complex::from_polar_decomposition(r, Radians(t)), w, 1e-12);
                    c.close("from_polar_decomposition deg", Complex::from_polar_decomposition(r, Degrees(t.to_degrees())), w, 1e-12);
                    let u = cx::polar(1.0, t);
                    c.close("from_angle rad", Complex::from_angle(Radians(t)), u, 1e-12);
                    c.close("from_angle deg", Complex::from_angle(Degrees(t.to_degrees())), u, 1e-12);
                    c.close("cis", Complex::cis(t), u, 1e-12);
                    let (g, d) = (t as f32, t.to_degrees() as f32);
                    let h = cx::polar(1.0, g as f64);
                    c.close("f32 from_polar_decomposition rad", Complex::from_polar_decomposition(r as f32, Radians(g)), [h[0] * r, h[1] * r], 1e-5);
                    c.close("f32 from_polar_decomposition deg", Complex::from_polar_decomposition(r as f32, Degrees(d)), w, 1e-5);
                    c.close("f32 from_angle rad", Complex::from_angle(Radians(g)), h, 1e-6);
                    c.close("f32 from_angle deg", Complex::from_angle(Degrees(d)), u, 1e-5);
                    c.close("f32 cis", Complex::cis(g), h, 1e-6);
                    if r > 0.0 {
                        let (m, a) = Complex::from_polar_decomposition(r, Radians(t)).polar_decomposition();
                        c.close("modulus", m, r, 1e-12);
                        c.close("angle up to turns", [a.0.cos(), a.0.sin()], u, 1e-12);
                        c.truth("principal angle", a.0 >= -core::f64::consts::PI - 1e-12 && a.0 <= core::f64::consts::PI + 1e-12);
                    }
                });
            }
        }
    });
    ctx.section("constants", |s| {
        s.case(|| "constants".into(), |c| {
            c.eq("unit_re", Complex::<f64>::unit_re(), [1.0, 0.0]);
            c.eq("unit_im", Complex::<f64>::unit_im(), [0.0, 1.0]);
            c.eq("i*i", Complex::<i32>::unit_im() * Complex::<i32>::unit_im(), [-1.0, 0.0]);
            c.eq("zero", Complex::<f64>::zero(), [0.0, 0.0]);
            c.eq("one", Complex::<f64>::one(), [1.0, 0.0]);
            c.eq("identity", Complex::<f64>::identity(), [1.0, 0.0]);
            let (n, i) = (f64::NAN, f64::INFINITY);
            for (re, im) in [(n, 0.0), (0.0, n), (i, 0.0), (0.0, -i), (n, i), (i, n), (1.0, 2.0)] {
                let z = Complex::new(re, im);
                let nan = re.is_nan() || im.is_nan();
                c.eq("is_nan", z.is_nan(), nan);
                c.eq("is_infinite", z.is_infinite(), !nan && (re.is_infinite() || im.is_infinite()));
                c.eq("is_finite", z.is_finite(), re.is_finite() && im.is_finite());
            }
        });
        for a in [[3.0, 4.0], [-1.0, 2.0], [0.0, -5.0], [-0.5, 0.0]] {
            s.case(|| format!("-unit {a:?}"), |c| {
                let u = Unit::from_value(Complex::from(a));
                let w = model::scale(&model::unit(&a), -1.0);
                c.close("-unit", (-u).into_inner(), w, 1e-15);
                c.close("-&unit", (-&u).into_inner(), w, 1e-15);
            });
        }
    });
    unsigned_left!(ctx, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
    signed_div!(ctx, i8 i16 i32 i64 i128 isize f32 f64);
    ctx.assume("integer quotients are compared where the exact quotient is a Gaussian integer");
    ctx.finish();
}
