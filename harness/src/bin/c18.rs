//! C18: Hamilton's algebra in every operand form.
use cglinalg_core::*;
use cglmc::*;

macro_rules! forms2 {
    ($c:ident, $name:literal, $x:ident $op:tt $y:ident, $want:expr) => {{
        let w = $want;
        $c.eq(concat!($name, " value-value"), $x $op $y, w);
        $c.eq(concat!($name, " value-ref"), $x $op &$y, w);
        $c.eq(concat!($name, " ref-value"), &$x $op $y, w);
        $c.eq(concat!($name, " ref-ref"), &$x $op &$y, w);
    }};
}
macro_rules! close2 {
    ($c:ident, $name:literal, $x:ident $op:tt $y:ident, $want:expr, $tol:expr) => {{
        let w = $want;
        $c.close(concat!($name, " value-value"), $x $op $y, w, $tol);
        $c.close(concat!($name, " value-ref"), $x $op &$y, w, $tol);
        $c.close(concat!($name, " ref-value"), &$x $op $y, w, $tol);
        $c.close(concat!($name, " ref-ref"), &$x $op &$y, w, $tol);
    }};
}
/// Ring operations of a pair and a scalar (any signed type; values small enough to be exact).
macro_rules! ring {
    ($c:ident, $t:ident, $a:expr, $b:expr, $k:expr) => {{
        let (af, bf, kf): ([f64; 4], [f64; 4], f64) = ($a, $b, $k);
        let q = |v: &[f64; 4]| Quaternion::<$t>::new(v[0] as $t, v[1] as $t, v[2] as $t, v[3] as $t);
        let (x, y, k) = (q(&af), q(&bf), kf as $t);
        forms2!($c, "a+b", x + y, model::add(&af, &bf));
        forms2!($c, "a-b", x - y, model::sub(&af, &bf));
        let ab = model::qmul(&af, &bf);
        let ba = model::qmul(&bf, &af);
        forms2!($c, "a*b", x * y, ab);
        forms2!($c, "a*k", x * k, model::scale(&af, kf));
        forms2!($c, "k*a", k * x, model::scale(&af, kf));
        { let mut z = x; z += y; $c.eq("a+=b", z, model::add(&af, &bf)); }
        { let mut z = x; z += &y; $c.eq("a+=&b", z, model::add(&af, &bf)); }
        { let mut z = x; z -= y; $c.eq("a-=b", z, model::sub(&af, &bf)); }
        { let mut z = x; z -= &y; $c.eq("a-=&b", z, model::sub(&af, &bf)); }
        { let mut z = x; z *= k; $c.eq("a*=k", z, model::scale(&af, kf)); }
        if kf != 0.0 {
            let rem = af.map(|v| v % kf);
            forms2!($c, "a%k", x % k, rem);
            { let mut z = x; z %= k; $c.eq("a%=k", z, rem); }
        }
        $c.eq("-a", -x, model::scale(&af, -1.0));
        $c.eq("-&a", -&x, model::scale(&af, -1.0));
        $c.eq("conjugate", x.conjugate(), model::qconj(&af));
        { let mut z = x; z.conjugate_mut(); $c.eq("conjugate_mut", z, model::qconj(&af)); }
        $c.eq("conj(ab) = conj(b)conj(a)", (x * y).conjugate(), y.conjugate() * x.conjugate());
        $c.eq("a conj(a)", x * x.conjugate(), [model::dot(&af, &af), 0.0, 0.0, 0.0]);
        $c.eq("squared", x.squared(), model::qmul(&af, &af));
        $c.eq("dot", x.dot(&y), model::dot(&af, &bf));
        $c.eq("norm_squared", x.norm_squared(), model::dot(&af, &af));
        $c.eq("modulus_squared", x.modulus_squared(), model::dot(&af, &af));
        $c.eq("magnitude_squared", x.magnitude_squared(), model::dot(&af, &af));
        let d = model::sub(&af, &bf);
        $c.eq("metric_distance_squared", x.metric_distance_squared(&y), model::dot(&d, &d));
        $c.eq("|ab|^2 = |a|^2 |b|^2", (x * y).norm_squared(), x.norm_squared() * y.norm_squared());
        $c.eq("l1_norm", x.l1_norm(), af.iter().map(|v| v.abs()).sum::<f64>());
        $c.eq("scalar", x.scalar(), af[0]);
        $c.eq("vector", x.vector(), [af[1], af[2], af[3]]);
        $c.eq("from_parts", Quaternion::from_parts(x.scalar(), x.vector()), af);
        $c.eq("from_real", Quaternion::from_real(x.scalar()), [af[0], 0.0, 0.0, 0.0]);
        $c.eq("from_pure", Quaternion::from_pure(x.vector()), [0.0, af[1], af[2], af[3]]);
        let v0 = af[1] == 0.0 && af[2] == 0.0 && af[3] == 0.0;
        $c.eq("is_real", x.is_real(), v0);
        $c.eq("is_pure", x.is_pure(), af[0] == 0.0);
        $c.eq("is_zero", x.is_zero(), v0 && af[0] == 0.0);
        $c.eq("is_identity", x.is_identity(), v0 && af[0] == 1.0);
        $c.eq("operands unchanged", (x, y), (af, bf));
        let _ = ba;
        (x, y, ab, ba)
    }};
}
/// Division ring operations (floats).
macro_rules! field {
    ($c:ident, $t:ident, $a:expr, $b:expr, $k:expr, $tol:expr) => {{
        let (af, bf, kf): ([f64; 4], [f64; 4], f64) = ($a, $b, $k);
        let q = |v: &[f64; 4]| Quaternion::<$t>::new(v[0] as $t, v[1] as $t, v[2] as $t, v[3] as $t);
        let (x, y, k) = (q(&af), q(&bf), kf as $t);
        let (na, nb) = (model::dot(&af, &af), model::dot(&bf, &bf));
        if kf != 0.0 {
            let d = af.map(|v| v / kf);
            close2!($c, "a/k", x / k, d, $tol);
            { let mut z = x; z /= k; $c.close("a/=k", z, d, $tol); }
        }
        let ab = model::qmul(&af, &bf);
        let ba = model::qmul(&bf, &af);
        $c.close("half", x.half(), model::scale(&af, 0.5), $tol);
        $c.close("inner", x.inner(&y), model::scale(&model::add(&ab, &ba), 0.5), $tol);
        $c.close("outer", x.outer(&y), model::scale(&model::sub(&ab, &ba), 0.5), $tol);
        for (n, got) in [("norm", x.norm()), ("modulus", x.modulus()), ("magnitude", x.magnitude()), ("l2_norm", x.l2_norm())] {
            $c.close(n, got, na.sqrt(), $tol);
        }
        $c.close("metric_distance", x.metric_distance(&y), model::norm(&model::sub(&af, &bf)), $tol);
        if na != 0.0 {
            let inv = model::scale(&model::qconj(&af), 1.0 / na);
            $c.truth("is_invertible", x.is_invertible());
            $c.close("try_inverse", x.try_inverse(), Some(inv), $tol);
            $c.close("inverse", x.inverse(), inv, $tol);
            $c.close("a*a^-1", x * x.inverse(), [1.0, 0.0, 0.0, 0.0], $tol);
            $c.close("a^-1*a", x.inverse() * x, [1.0, 0.0, 0.0, 0.0], $tol);
        } else {
            $c.truth("zero is not invertible", !x.is_invertible());
            $c.truth("zero has no inverse", x.try_inverse().is_none());
        }
        if nb != 0.0 {
            let binv = model::scale(&model::qconj(&bf), 1.0 / nb);
            $c.close("div_left", x.div_left(&y), Some(model::qmul(&binv, &af)), $tol);
            $c.close("div_right", x.div_right(&y), Some(model::qmul(&af, &binv)), $tol);
            $c.close("b * div_left = a", x.div_left(&y).map(|z| y * z), Some(af), 4.0 * $tol);
            $c.close("div_right * b = a", x.div_right(&y).map(|z| z * y), Some(af), 4.0 * $tol);
            let p = model::scale(&bf, model::dot(&af, &bf) / nb);
            $c.close("project", x.project(&y), p, $tol);
            $c.close("reject", x.reject(&y), model::sub(&af, &p), $tol);
        } else {
            $c.truth("no left quotient by zero", x.div_left(&y).is_none());
            $c.truth("no right quotient by zero", x.div_right(&y).is_none());
        }
        $c.truth("is_finite", x.is_finite());
    }};
}
macro_rules! left_scalars {
    ($ctx:ident, $($t:ident)*) => {$(
        $ctx.section(concat!("scalar-on-the-left-", stringify!($t)), |s| {
            for k in 0..=7u8 { for i in 0..10u8 {
                let a = [i as $t, (i as $t) + 2 as $t, 3 as $t, ((7 * i) % 11) as $t];
                s.case(|| format!("{k} * {a:?}"), |c| {
                    let q = Quaternion::<$t>::from(a);
                    let kk = k as $t;
                    let want = a.map(|v| v * kk);
                    forms2!(c, "k*q", kk * q, want);
                    forms2!(c, "q*k", q * kk, want);
                    { let mut z = q; z *= kk; c.eq("q*=k", z, want); }
                    if k != 0 {
                        let r = a.map(|v| v % kk);
                        forms2!(c, "q%k", q % kk, r);
                    }
                    c.eq("sum", q + q, a.map(|v| v + v));
                });
            }}
        });
    )*};
}

fn main() {
    let ctx = Ctx::start("C18");
    let alpha: &[f64] = ctx.grade(&[0.0, 1.0, -2.0, 3.0], &[0.0, 1.0, -2.0, 3.0, -1.0, 5.0], &[0.0, 1.0, -2.0, 3.0, -1.0, 5.0, -0.5, 8.0]);
    let fill: Vec<[f64; 4]> = (0..8).map(|i| grid::distinct::<4>(i)).collect();
    ctx.bound(&format!("all pairs of quaternions over the alphabet {alpha:?} (f64, f32, i32, i64), scalars {{2,-3,0,1,-1}}; exact comparison for ring operations"));
    let ks = [2.0, -3.0, 0.0, 1.0, -1.0];
    let n = grid::count(alpha.len(), 4);
    ctx.par("ring-f64", n, |i, s| {
        let a: [f64; 4] = grid::tuple(alpha, i);
        for j in 0..n {
            let b: [f64; 4] = grid::tuple(alpha, j);
            let k = ks[(i + j) % 5];
            s.case(|| format!("a = {a:?}, b = {b:?}, k = {k}"), |c| {
                ring!(c, f64, a, b, k);
            });
        }
    });
    let beta: &[f64] = ctx.pick(grid::TINY3, &[0.0, 1.0, -2.0, 3.0, -0.5]);
    let m = grid::count(beta.len(), 4);
    ctx.par("division-f64", m, |i, s| {
        let a: [f64; 4] = grid::tuple(beta, i);
        for j in 0..m {
            let b: [f64; 4] = grid::tuple(beta, j);
            let k = ks[(i + j) % 5];
            s.case(|| format!("a = {a:?}, b = {b:?}, k = {k}"), |c| field!(c, f64, a, b, k, 1e-14));
        }
    });
    let m3 = grid::count(3, 4);
    ctx.par("ring-and-division-f32", m3, |i, s| {
        let a: [f64; 4] = grid::tuple(grid::TINY3, i);
        for j in 0..m3 {
            let b: [f64; 4] = grid::tuple(grid::TINY3, j);
            let k = ks[(i + 2 * j) % 5];
            s.case(|| format!("f32 a = {a:?}, b = {b:?}, k = {k}"), |c| {
                ring!(c, f32, a, b, k);
                field!(c, f32, a, b, k, 1e-5);
            });
        }
    });
    ctx.par("ring-integers", m3, |i, s| {
        let a: [f64; 4] = grid::tuple(&[0.0, 1.0, -3.0], i);
        for j in 0..m3 {
            let b: [f64; 4] = grid::tuple(&[2.0, 0.0, -1.0], j);
            let k = ks[(i + j) % 5];
            s.case(|| format!("i32/i64/i16/isize a = {a:?}, b = {b:?}, k = {k}"), |c| {
                ring!(c, i32, a, b, k);
                ring!(c, i64, a, b, k);
                ring!(c, i16, a, b, k);
                ring!(c, isize, a, b, k);
                ring!(c, i128, a, b, k);
            });
        }
    });
    // Distinct fills at several magnitudes: every product term recognisable, and no absolute
    // threshold hidden in the formulas.
    ctx.bound("distinct-component quaternions at magnitudes 2^e for e in [-48, 48] (f64) and [-20, 20] (f32) in steps of 4 (8 in the quick tier), independently for both operands");
    ctx.section("magnitudes-f64", |s| {
        for a in &fill {
            for b in &fill {
                for e in (-48..=48).step_by(ctx.pick(8, 4)) {
                    for g in (-48..=48).step_by(ctx.pick(8, 4)) {
                        let (u, v) = (2f64.powi(e), 2f64.powi(g));
                        s.case(|| format!("a = 2^{e} {a:?}, b = 2^{g} {b:?}"), |c| {
                            let q = |w: &[f64; 4], t: f64| Quaternion::<f64>::new(w[0] * t, w[1] * t, w[2] * t, w[3] * t);
                            let (x, y) = (q(a, u), q(b, v));
                            let un = |z: Quaternion<f64>, t: f64| [z[0] / t, z[1] / t, z[2] / t, z[3] / t];
                            let ab = model::qmul(a, b);
                            c.eq("a*b", un(x * y, u * v), ab);
                            c.eq("&a*&b", un(&x * &y, u * v), ab);
                            c.eq("norm_squared", x.norm_squared() / (u * u), model::dot(a, a));
                            c.close("norm", x.norm() / u, model::norm(a), 1e-14);
                            let inv = model::scale(&model::qconj(a), 1.0 / model::dot(a, a));
                            c.truth("is_invertible", x.is_invertible());
                            match x.try_inverse() {
                                Some(z) => c.close("try_inverse", un(z, 1.0 / u), inv, 1e-14),
                                None => c.truth("try_inverse exists", false),
                            };
                            let binv = model::scale(&model::qconj(b), 1.0 / model::dot(b, b));
                            c.close("div_left", x.div_left(&y).map(|z| un(z, u / v)), Some(model::qmul(&binv, a)), 1e-13);
                            c.close("div_right", x.div_right(&y).map(|z| un(z, u / v)), Some(model::qmul(a, &binv)), 1e-13);
                            let p = model::scale(b, model::dot(a, b) / model::dot(b, b));
                            c.close("project", un(x.project(&y), u), p, 1e-13);
                            c.close("reject", un(x.reject(&y), u), model::sub(a, &p), 1e-13);
                        });
                    }
                }
            }
        }
    });
    ctx.bound("ring operations in every form with all operands rescaled by 2^-40 .. 2^40 (f64) and 2^-20 .. 2^20 (f32), exactly");
    ctx.section("ring-rescaled", |s| {
        for e in (-40..=40).step_by(ctx.pick(10, 2)) {
            for (i, a) in fill.iter().enumerate() {
                for (j, b) in fill.iter().enumerate() {
                    let k = [2.0, -3.0, 0.5][(i + j) % 3];
                    let (u, h) = (2f64.powi(e), 2f64.powi(e / 2));
                    s.case(|| format!("2^{e} times a = {a:?}, b = {b:?}, k = {k}"), |c| {
                        ring!(c, f64, a.map(|v| v * u), b.map(|v| v * u), k * u);
                        ring!(c, f32, a.map(|v| v * h), b.map(|v| v * h), k * h);
                        let (x, y) = (Quaternion::<f64>::from(a.map(|v| v * u)), Quaternion::<f64>::from(b.map(|v| v * u)));
                        let (ab, ba) = (model::qmul(a, b), model::qmul(b, a));
                        let un = |z: Quaternion<f64>, t: f64| [z[0] / t, z[1] / t, z[2] / t, z[3] / t];
                        c.close("half", un(x.half(), u), model::scale(a, 0.5), 1e-14);
                        c.close("inner", un(x.inner(&y), u * u), model::scale(&model::add(&ab, &ba), 0.5), 1e-14);
                        c.close("outer", un(x.outer(&y), u * u), model::scale(&model::sub(&ab, &ba), 0.5), 1e-14);
                        c.close("metric_distance", x.metric_distance(&y) / u, model::norm(&model::sub(a, b)), 1e-14);
                        let ku = 3.0 * u;
                        let d = a.map(|v| v / 3.0);
                        close2!(c, "a/k", x / ku, d, 1e-14);
                        { let mut z = x; z /= ku; c.close("a/=k", z, d, 1e-14); }
                    });
                }
            }
        }
    });
    ctx.bound("single quaternions at magnitudes 2^e for e in [-480, 480] step 4: an inverse that is returned is the inverse, and it is returned for every e >= -48");
    ctx.section("inverse-at-every-scale", |s| {
        for e in (-480..=480).step_by(4) {
            for a in &fill {
                let u = 2f64.powi(e);
                s.case(|| format!("2^{e} times {a:?}"), |c| {
                    let x = Quaternion::<f64>::from(a.map(|v| v * u));
                    let inv = model::scale(&model::qconj(a), 1.0 / model::dot(a, a));
                    let got = x.try_inverse();
                    c.same("is_invertible agrees with try_inverse", x.is_invertible(), got.is_some());
                    c.same("division agrees with try_inverse", (x.div_left(&x).is_some(), x.div_right(&x).is_some()), (got.is_some(), got.is_some()));
                    if e >= -48 {
                        c.truth("try_inverse exists", got.is_some());
                    }
                    if let Some(z) = got {
                        c.close("try_inverse", [z[0] * u, z[1] * u, z[2] * u, z[3] * u], inv, 1e-14);
                        c.close("inverse", x.inverse(), z, 0.0);
                    }
                });
            }
        }
    });
    ctx.section("magnitudes-f32", |s| {
        for a in &fill {
            for e in (-20..=20).step_by(4) {
                let u = 2f32.powi(e);
                s.case(|| format!("f32 a = 2^{e} {a:?}"), |c| {
                    let x = Quaternion::<f32>::new(a[0] as f32 * u, a[1] as f32 * u, a[2] as f32 * u, a[3] as f32 * u);
                    c.truth("is_invertible", x.is_invertible());
                    let inv = model::scale(&model::qconj(a), 1.0 / model::dot(a, a));
                    c.close("try_inverse", x.try_inverse().map(|z| [z[0] * u, z[1] * u, z[2] * u, z[3] * u]), Some(inv), 1e-6);
                    c.eq("squared", (x * x).map(|v| v / (u * u)), model::qmul(a, a));
                });
            }
        }
    });
    // Components of mixed sizes and quaternions close to one, to zero and to each other: sums and
    // scalar products to the last bit, products to the rounding of the terms of each component.
    let mut near: Vec<[f64; 4]> = Vec::new();
    {
        let sizes = [1.0 / 3.0, 1.0 + 1.0 / 262144.0, -0.999999, 1048577.0, 3.0 / 4194304.0, -7.0e12, 0.1, 1e-9, -0.7, 0.0, 2.5];
        for seed in 0..11usize {
            near.push(std::array::from_fn(|r| sizes[(seed * 7 + r * (3 + seed)) % 11]));
        }
        for d in [0.0, 1e-3, -1e-6, 1e-9, -1e-12, 4e-16] {
            for base in [[1.0, 0.0, 0.0, 0.0], [-1.0, 0.0, 0.0, 0.0], [0.0; 4], [0.0, 1.0, 0.0, 0.0], [0.6, 0.0, 0.8, 0.0], [2.0, -3.0, 5.0, 7.0]] {
                let p: [f64; 4] = std::array::from_fn(|i| base[i] + d * [0.7, 1.0, -0.4, 0.9][i]);
                if !near.contains(&p) {
                    near.push(p);
                }
            }
        }
    }
    ctx.bound(&format!("{} quaternions of mixed sizes or within 1e-3 .. 4e-16 of special ones: all pairs, every form", near.len()));
    ctx.par("mixed", near.len(), |i, s| {
        let a = near[i];
        for (j, &b) in near.iter().enumerate() {
            let k = [0.1, 1.000001, -0.999999, 3e-7, 1048577.0][(i + j) % 5];
            s.case(|| format!("a = {a:?}, b = {b:?}, k = {k}"), |c| {
                let (x, y) = (Quaternion::<f64>::from(a), Quaternion::<f64>::from(b));
                forms2!(c, "a+b", x + y, model::add(&a, &b));
                forms2!(c, "a-b", x - y, model::sub(&a, &b));
                forms2!(c, "a*k", x * k, a.map(|v| v * k));
                forms2!(c, "k*a", k * x, a.map(|v| v * k));
                forms2!(c, "a%k", x % k, a.map(|v| v % k));
                { let mut z = x; z += y; c.eq("a+=b", z, model::add(&a, &b)); }
                { let mut z = x; z += &y; c.eq("a+=&b", z, model::add(&a, &b)); }
                { let mut z = x; z -= y; c.eq("a-=b", z, model::sub(&a, &b)); }
                { let mut z = x; z -= &y; c.eq("a-=&b", z, model::sub(&a, &b)); }
                { let mut z = x; z *= k; c.eq("a*=k", z, a.map(|v| v * k)); }
                { let mut z = x; z %= k; c.eq("a%=k", z, a.map(|v| v % k)); }
                c.eq("-a", -x, a.map(|v| -v));
                c.eq("-&a", -&x, a.map(|v| -v));
                c.eq("conjugate", x.conjugate(), [a[0], -a[1], -a[2], -a[3]]);
                { let mut z = x; z.conjugate_mut(); c.eq("conjugate_mut", z, [a[0], -a[1], -a[2], -a[3]]); }
                for (n, g) in [("a/k", x / k), ("a/&k", x / &k), ("&a/k", &x / k), ("&a/&k", &x / &k), ("a/=k", { let mut z = x; z /= k; z })] {
                    for m in 0..4 { c.scaled(n, g[m], a[m] / k, (a[m] / k).abs(), 2e-15); }
                }
                let size = |p: &[f64; 4], q: &[f64; 4]| -> [f64; 4] {
                    let (p, q) = (p.map(f64::abs), q.map(f64::abs));
                    [p[0] * q[0] + p[1] * q[1] + p[2] * q[2] + p[3] * q[3], p[0] * q[1] + p[1] * q[0] + p[2] * q[3] + p[3] * q[2], p[0] * q[2] + p[2] * q[0] + p[1] * q[3] + p[3] * q[1], p[0] * q[3] + p[3] * q[0] + p[1] * q[2] + p[2] * q[1]]
                };
                let (ab, ba, sz) = (model::qmul(&a, &b), model::qmul(&b, &a), size(&a, &b));
                for (n, g) in [("a*b", x * y), ("a*&b", x * &y), ("&a*b", &x * y), ("&a*&b", &x * &y)] {
                    for m in 0..4 { c.scaled(n, g[m], ab[m], sz[m], 2e-15); }
                }
                let (sq, ss) = (model::qmul(&a, &a), size(&a, &a));
                let (inn, out) = (x.inner(&y), x.outer(&y));
                let g2 = x.squared();
                for m in 0..4 {
                    c.scaled("squared", g2[m], sq[m], ss[m], 2e-15);
                    c.scaled("inner", inn[m], (ab[m] + ba[m]) / 2.0, sz[m], 4e-15);
                    c.scaled("outer", out[m], (ab[m] - ba[m]) / 2.0, sz[m], 4e-15);
                }
                let n2 = model::dot(&a, &a);
                c.scaled("norm_squared", x.norm_squared(), n2, n2, 2e-15);
                c.scaled("norm", x.norm(), n2.sqrt(), n2.sqrt(), 4e-15);
                c.scaled("dot", x.dot(&y), model::dot(&a, &b), sz[0], 2e-15);
                let d = model::norm(&model::sub(&a, &b));
                c.scaled("metric_distance", x.metric_distance(&y), d, d, 4e-15);
                // quotients, relative to their norm; the documented cut-off for norms is left alone
                let nb = model::dot(&b, &b);
                if nb.sqrt() > 1e-13 {
                    let inv: [f64; 4] = [b[0] / nb, -b[1] / nb, -b[2] / nb, -b[3] / nb];
                    let t = (n2 / nb).sqrt();
                    c.scaled("inverse", y.inverse(), inv, 1.0 / nb.sqrt(), 1e-14);
                    c.scaled("try_inverse", y.try_inverse(), Some(inv), 1.0 / nb.sqrt(), 1e-14);
                    c.scaled("div_left", x.div_left(&y), Some(model::qmul(&inv, &a)), t, 1e-14);
                    c.scaled("div_right", x.div_right(&y), Some(model::qmul(&a, &inv)), t, 1e-14);
                    let p = model::scale(&b, model::dot(&a, &b) / nb);
                    c.scaled("project", x.project(&y), p, n2.sqrt(), 1e-14);
                    c.scaled("reject", x.reject(&y), model::sub(&a, &p), n2.sqrt(), 1e-14);
                }
            });
        }
    });
    // Histories: associativity and distributivity over all triples.
    let tri: &[f64] = ctx.pick(&[1.0, -2.0], grid::TINY3);
    let t = grid::count(tri.len(), 4);
    ctx.bound(&format!("associativity and distributivity on all triples over {tri:?}"));
    ctx.par("triples", t, |i, s| {
        let q = |v: [f64; 4]| Quaternion::<f64>::from(v);
        let a = q(grid::tuple(tri, i));
        for j in 0..t {
            let b = q(grid::tuple(tri, j));
            for k in 0..t {
                let d = q(grid::tuple(tri, k));
                s.case(|| format!("{a:?} {b:?} {d:?}"), |c| {
                    c.eq("(ab)c = a(bc)", (a * b) * d, a * (b * d));
                    c.eq("a(b+c) = ab+ac", a * (b + d), a * b + a * d);
                    c.eq("(a+b)c = ac+bc", (a + b) * d, a * d + b * d);
                });
            }
        }
    });
    ctx.section("basis-and-units", |s| {
        s.case(|| "i, j, k".into(), |c| {
            let (o, i, j, k) = (Quaternion::<f64>::unit_s(), Quaternion::<f64>::unit_x(), Quaternion::<f64>::unit_y(), Quaternion::<f64>::unit_z());
            c.eq("unit_s", o, [1.0, 0.0, 0.0, 0.0]);
            c.eq("unit_x", i, [0.0, 1.0, 0.0, 0.0]);
            c.eq("unit_y", j, [0.0, 0.0, 1.0, 0.0]);
            c.eq("unit_z", k, [0.0, 0.0, 0.0, 1.0]);
            for (n, v) in [("ii", i * i), ("jj", j * j), ("kk", k * k), ("ijk", i * j * k)] {
                c.eq(n, v, -o);
            }
            c.eq("identity", Quaternion::<f64>::identity(), o);
            c.eq("one", Quaternion::<f64>::one(), o);
            c.eq("zero", Quaternion::<f64>::zero(), [0.0; 4]);
        });
        for v in &fill {
            s.case(|| format!("-unit({v:?})"), |c| {
                let q = Quaternion::<f64>::from(*v);
                let u = Unit::from_value(q);
                let w = model::scale(&model::unit(v), -1.0);
                c.close("-unit", (-u).into_inner(), w, 1e-15);
                c.close("-&unit", (-&u).into_inner(), w, 1e-15);
            });
        }
    });
    left_scalars!(ctx, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
    ctx.assume("inverses are asserted to exist for norms from 2^-48 (f64) and 2^-20 (f32) up, and to be absent for the zero quaternion; the documented machine-epsilon cut-off between those is not probed");
    ctx.finish();
}
