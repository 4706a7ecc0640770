//! C09: products, norms, distances and geometric helpers of vectors and points.
use cglinalg_core::*;
use cglmc::*;
use model as md;

/// Everything that takes two vectors of dimension N.
macro_rules! pair {
    ($c:ident, $t:ident, $n:literal, $a:expr, $b:expr, $tol:expr) => {{
        let a: [$t; $n] = $a;
        let b: [$t; $n] = $b;
        let (fa, fb) = (a.map(|v| v as f64), b.map(|v| v as f64));
        let x = Vector::<$t, $n>::from(a);
        let y = Vector::<$t, $n>::from(b);
        let p = Point::<$t, $n>::from(a);
        let q = Point::<$t, $n>::from(b);
        let tol: f64 = $tol;
        let d = md::sub(&fa, &fb);
        $c.eq("dot", x.dot(&y), md::dot(&fa, &fb));
        $c.eq("dot swapped", y.dot(&x), md::dot(&fa, &fb));
        $c.eq("point dot", p.dot(&q), md::dot(&fa, &fb));
        let sq = md::dot(&fa, &fa);
        $c.eq("norm squared", (x.norm_squared(), x.magnitude_squared(), p.norm_squared(), p.magnitude_squared(), Normed::norm_squared(&x)), [sq; 5]);
        let dsq = md::dot(&d, &d);
        $c.eq("distance squared", (x.metric_distance_squared(&y), p.metric_distance_squared(&q), Normed::distance_squared(&x, &y), Normed::distance_squared(&p, &q)), [dsq; 4]);
        $c.rel("norm", [x.norm(), x.magnitude(), x.l2_norm(), Normed::norm(&x), x.apply_norm(&L2Norm::new())], [sq.sqrt(); 5], tol);
        $c.rel("point norm", [p.norm(), p.magnitude(), p.l2_norm(), Normed::norm(&p)], [sq.sqrt(); 4], tol);
        $c.rel("distance", [x.metric_distance(&y), p.metric_distance(&q), Normed::distance(&x, &y), Normed::distance(&p, &q), x.apply_metric_distance(&y, &L2Norm::new())], [dsq.sqrt(); 5], tol);
        let l1 = fa.iter().map(|v| v.abs()).sum::<f64>();
        let li = fa.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        let dl1 = d.iter().map(|v| v.abs()).sum::<f64>();
        let dli = d.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        $c.eq("l1", [x.l1_norm(), x.apply_norm(&L1Norm::new())], [l1; 2]);
        $c.eq("linf", [x.linf_norm(), x.apply_norm(&LinfNorm::new()), x.apply_norm(&UniformNorm::new())], [li; 3]);
        $c.eq("l1 distance", x.apply_metric_distance(&y, &L1Norm::new()), dl1);
        $c.eq("linf distance", x.apply_metric_distance(&y, &LinfNorm::new()), dli);
        for k in [1u32, 2, 3, 4, 5, 7, 10] {
            // powers that stay in the range of the type
            let fits = |v: f64| v == 0.0 || k <= 4 || (1e-30..1e30).contains(&v.powi(k as i32));
            if !fa.iter().chain(d.iter()).all(|v| fits(v.abs())) { continue; }
            let w = fa.iter().map(|v| v.abs().powi(k as i32)).sum::<f64>().powf(1.0 / k as f64);
            $c.rel("lp", [x.lp_norm(k), x.apply_norm(&LpNorm::new(k))], [w; 2], tol * 4.0);
            let w = d.iter().map(|v| v.abs().powi(k as i32)).sum::<f64>().powf(1.0 / k as f64);
            $c.rel("lp distance", x.apply_metric_distance(&y, &LpNorm::new(k)), w, tol * 4.0);
        }
        for t in [0.0, 0.25, 0.5, 1.0, -1.0, 2.0] {
            let mut w = fa;
            for i in 0..$n { w[i] = fa[i] * (1.0 - t) + fb[i] * t; }
            $c.eq("lerp", x.lerp(&y, t as $t), w);
        }
        let mut lo = fa; let mut hi = fa;
        for i in 0..$n { lo[i] = fa[i].min(fb[i]); hi[i] = fa[i].max(fb[i]); }
        $c.eq("component_min", x.component_min(&y), lo);
        $c.eq("component_max", x.component_max(&y), hi);
        let bb = md::dot(&fb, &fb);
        if bb > 0.0 {
            let k = md::dot(&fa, &fb) / bb;
            $c.rel("project", x.project(&y), md::scale(&fb, k), tol);
            $c.rel("reflect", x.reflect(&y), md::sub(&fa, &md::scale(&fb, 2.0 * k)), tol);
        }
        $c.same("is_zero", x.is_zero(), fa.iter().all(|v| *v == 0.0));
        $c.same("is_finite", x.is_finite(), true);
    }};
}
macro_rules! sweep {
    ($ctx:ident, $t:ident, $n:literal, $alpha:expr, $tol:expr) => {{
        let alpha: &[$t] = $alpha;
        let m = grid::count(alpha.len(), $n);
        $ctx.par(concat!("pairs-", stringify!($t), "-", $n), m, |i, s| {
            let a: [$t; $n] = grid::tuple(alpha, i);
            for j in 0..m {
                let b: [$t; $n] = grid::tuple(alpha, j);
                s.case(|| format!("a = {a:?}, b = {b:?}"), |c| pair!(c, $t, $n, a, b, $tol));
            }
        });
        let exps: &[i32] = if $ctx.thorough() { &[-20, -14, -7, 7, 14, 20] } else { &[-20, 20] };
        $ctx.par(concat!("rescaled-pairs-", stringify!($t), "-", $n), m, |i, s| {
            for e in exps {
                let e = e * if size_of::<$t>() == 8 { 4 } else { 1 };
                let k = (2 as $t).powi(e);
                let a: [$t; $n] = grid::tuple(alpha, i);
                let a = a.map(|v| v * k);
                for j in (i % 3..m).step_by($ctx.pick(3, 1)) {
                    let b: [$t; $n] = grid::tuple(alpha, j);
                    let b = b.map(|v| v * k);
                    s.case(|| format!("a = {a:?}, b = {b:?}"), |c| pair!(c, $t, $n, a, b, $tol));
                }
            }
        });
    }};
}

fn main() {
    let ctx = Ctx::start("C09");
    let full = ctx.thorough();
    ctx.bound("all pairs of tuples over 7-, 6-, 5- and 3- (thorough 4-) letter alphabets for dimensions 1..4, f64 and f32; six interpolation amounts; exponents 1..4; the same pairs (quick tier: every third second operand) rescaled by powers of two from 2^-80 to 2^80 (f64) and 2^-20 to 2^20 (f32), with relative tolerances");
    ctx.bound("cross and triple products: all pairs over a 5-letter alphabet and all triples over a 3-letter alphabet (f64, i32); integer scalars for dot and norms; operands rescaled by 2^+-40, 2^+-200 for homogeneity");
    sweep!(ctx, f64, 1, &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 1024.0], 1e-13);
    sweep!(ctx, f64, 2, &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5], 1e-13);
    sweep!(ctx, f64, 3, &[0.0, 1.0, -1.0, 2.0, -3.0], 1e-13);
    sweep!(ctx, f64, 4, if full { &[0.0, 1.0, -2.0, 3.0] } else { &[0.0, 1.0, -2.0] }, 1e-13);
    sweep!(ctx, f32, 1, &[0.0, 1.0, -1.0, 2.0, -3.0], 1e-5);
    sweep!(ctx, f32, 2, &[0.0, 1.0, -1.0, 2.0], 1e-5);
    sweep!(ctx, f32, 3, &[0.0, 1.0, -2.0], 1e-5);
    sweep!(ctx, f32, 4, &[0.0, 1.0, -2.0], 1e-5);
    sweep!(ctx, f64, 5, &[0.0, 1.0, -2.0], 1e-13);
    sweep!(ctx, f64, 6, &[1.0, -2.0], 1e-13);
    ctx.bound("vectors of dimension 5 to 9, 12 and 16 on distinct fills, f64 and f32");
    ctx.section("long-vectors", |s| {
        for i in 0..ctx.grade(12, 40, 200) as i64 {
            for j in 0..ctx.grade(12, 40, 200) as i64 {
                s.case(|| format!("fills {i}, {j}"), |c| {
                    macro_rules! n { ($($m:literal)*) => {$( {
                        let a: [f64; $m] = grid::distinct(i);
                        let b: [f64; $m] = grid::distinct(j + 7);
                        pair!(c, f64, $m, a, b, 1e-13);
                        pair!(c, f32, $m, a.map(|v| v as f32), b.map(|v| v as f32), 1e-5);
                    } )*}; }
                    n!(5 6 7 8 9 12 16);
                });
            }
        }
    });
    let al: &[f64] = if full { &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 7.0] } else { &[0.0, 1.0, -1.0, 2.0, -3.0] };
    let m = grid::count(al.len(), 3);
    ctx.par("cross-product", m, |i, s| {
        let a: [f64; 3] = grid::tuple(al, i);
        for j in 0..m {
            let b: [f64; 3] = grid::tuple(al, j);
            s.case(|| format!("a = {a:?}, b = {b:?}"), |c| {
                let w = md::cross(&a, &b);
                let (x, y) = (Vector3::from(a), Vector3::from(b));
                c.eq("cross", x.cross(&y), w);
                c.eq("cross swapped", y.cross(&x), md::scale(&w, -1.0));
                c.eq("orthogonal", (x.cross(&y).dot(&x), x.cross(&y).dot(&y)), [0.0, 0.0]);
                let z = x.cross(&y);
                c.eq("Lagrange", z.norm_squared(), x.norm_squared() * y.norm_squared() - x.dot(&y) * x.dot(&y));
                let ai = a.map(|v| (v * 2.0) as i32);
                let bi = b.map(|v| (v * 2.0) as i32);
                c.eq("integer cross", Vector3::from(ai).cross(&Vector3::from(bi)), md::cross(&ai.map(|v| v as f64), &bi.map(|v| v as f64)));
                let a4 = a.map(|v| v as f32);
                c.eq("f32 cross", Vector3::from(a4).cross(&Vector3::from(b.map(|v| v as f32))), w);
            });
        }
    });
    let at: &[f64] = &[0.0, 1.0, -2.0];
    ctx.par("triple-product", 27, |i, s| {
        let a: [f64; 3] = grid::tuple(at, i);
        for j in 0..27 {
            for k in 0..27 {
                let b: [f64; 3] = grid::tuple(at, j);
                let d: [f64; 3] = grid::tuple(at, k);
                s.case(|| format!("a = {a:?}, b = {b:?}, c = {d:?}"), |c| {
                    let w = md::det(&[a, b, d]);
                    let (x, y, z) = (Vector3::from(a), Vector3::from(b), Vector3::from(d));
                    c.eq("triple is the determinant of the rows", x.triple(&y, &z), w);
                    c.eq("a . (b x c)", x.dot(&y.cross(&z)), w);
                    c.eq("b . (c x a)", y.dot(&z.cross(&x)), w);
                });
            }
        }
    });
    ctx.section("integer-products", |s| {
        let al: &[i32] = &[0, 1, -1, 3, -7];
        for i in 0..625 {
            for j in (0..625).step_by(if full { 1 } else { 4 }) {
                let a: [i32; 4] = grid::tuple(al, i);
                let b: [i32; 4] = grid::tuple(al, j);
                s.case(|| format!("a = {a:?}, b = {b:?}"), |c| {
                    macro_rules! n { ($m:literal) => {{
                        let mut u = [0i32; $m]; let mut v = [0i32; $m];
                        for k in 0..$m { u[k] = a[k]; v[k] = b[k]; }
                        let (x, y) = (Vector::<i32, $m>::from(u), Vector::<i32, $m>::from(v));
                        let w: i32 = u.iter().zip(v.iter()).map(|(p, q)| p * q).sum();
                        c.same("dot", x.dot(&y), w);
                        c.same("point dot", Point::<i32, $m>::from(u).dot(&Point::from(v)), w);
                        c.same("norm squared", x.norm_squared(), u.iter().map(|p| p * p).sum());
                        c.same("l1", x.l1_norm(), u.iter().map(|p| p.abs()).sum());
                        c.same("linf", x.linf_norm(), u.iter().map(|p| p.abs()).max().unwrap());
                        c.same("l1 distance", x.apply_metric_distance(&y, &L1Norm::new()), u.iter().zip(v.iter()).map(|(p, q)| (p - q).abs()).sum());
                        c.same("distance squared", x.metric_distance_squared(&y), u.iter().zip(v.iter()).map(|(p, q)| (p - q) * (p - q)).sum());
                        c.same("is_zero", x.is_zero(), u.iter().all(|p| *p == 0));
                    }}; }
                    n!(1); n!(2); n!(3); n!(4);
                });
            }
        }
    });
    ctx.section("homogeneity", |s| {
        for e in [-200, -40, 40, 200] {
            let k = 2f64.powi(e);
            for i in 0..30 {
                let a: [f64; 4] = grid::distinct(i);
                let b: [f64; 4] = grid::distinct(i + 7);
                s.case(|| format!("2^{e} times {a:?}, {b:?}"), |c| {
                    let (x, y) = (Vector4::from(a), Vector4::from(b));
                    let (xs, ys) = (Vector4::from(a.map(|v| v * k)), Vector4::from(b.map(|v| v * k)));
                    let r = |g: f64, w: f64| g / k - w;
                    c.close("norm scales", r(xs.norm(), x.norm()), 0.0, 1e-12);
                    c.close("l1 scales", r(xs.l1_norm(), x.l1_norm()), 0.0, 1e-12);
                    c.close("linf scales", r(xs.linf_norm(), x.linf_norm()), 0.0, 1e-12);
                    c.close("distance scales", r(xs.metric_distance(&ys), x.metric_distance(&y)), 0.0, 1e-12);
                    c.close("dot scales", xs.dot(&ys) / k / k, x.dot(&y), 1e-12);
                    c.close("project scales", xs.project(&ys) / k, md::scale(&b, md::dot(&a, &b) / md::dot(&b, &b)), 1e-12);
                    c.close("lerp scales", xs.lerp(&ys, 0.25) / k, x.lerp(&y, 0.25), 1e-12);
                    let (p, q) = (Vector3::new(a[0], a[1], a[2]), Vector3::new(b[0], b[1], b[2]));
                    c.close("cross scales", (p * k).cross(&(q * k)) / k / k, p.cross(&q), 1e-12);
                });
            }
        }
    });
    ctx.bound("reflection and projection with directions within 1e-2 .. 1e-9 of unit length; p-norms for p up to 1000");
    let dirs = grid::directions3(true);
    ctx.par("nearly-unit-directions", dirs.len(), |i, s| {
        let u = dirs[i];
        for k in [0.99, 1.01, 1.0 - 1e-4, 1.0 + 1e-4, 1.0 - 1e-6, 1.0 + 1e-6, 1.0 - 1e-9, 1.0 + 1e-9, 1.0] {
            for a in [[1.0, 2.0, -3.0], [0.5, 0.0, 7.0], [-4.0, 1.0, 1.0]] {
                s.case(|| format!("{a:?} and {k} * {u:?}"), |c| {
                    let (x, y) = (Vector3::from(a), Vector3::from(u.map(|v| v * k)));
                    let d = md::dot(&a, &u);
                    c.close("reflect", x.reflect(&y), md::sub(&a, &md::scale(&u, 2.0 * d)), 1e-13);
                    c.close("reflect twice", x.reflect(&y).reflect(&y), a, 1e-13);
                    c.close("project", x.project(&y), md::scale(&u, d), 1e-13);
                    let (x, y) = (Vector3::from(a.map(|v| v as f32)), Vector3::from(u.map(|v| (v * k) as f32)));
                    c.close("f32 reflect", x.reflect(&y), md::sub(&a, &md::scale(&u, 2.0 * d)), 1e-5);
                    c.close("f32 project", x.project(&y), md::scale(&u, d), 1e-5);
                    c.close("point-free reflect in four dimensions", Vector4::from([a[0], a[1], a[2], 2.0]).reflect(&Vector4::from([u[0] * k, u[1] * k, u[2] * k, 0.0])), {
                        let r = md::sub(&a, &md::scale(&u, 2.0 * d));
                        [r[0], r[1], r[2], 2.0]
                    }, 1e-13);
                });
            }
        }
    });
    ctx.bound("reflection and projection in dimensions 2 to 4 with components beside 0, 1 and 2 and of mixed sizes 1e-9 .. 1e7, each component judged by the size of its terms");
    ctx.section("beside-special", |s| {
        let vals = [0.0, 1.0, 1.0 + 3e-5, 1.0 - 2e-7, -0.5, 2.0 - 1e-5, 3e-5, -1e-9, 1e7];
        macro_rules! beside { ($t:ident, $n:literal, $tol:expr, $step:expr) => {{
            let m = grid::count(vals.len(), $n);
            let all: Vec<[f64; $n]> = (0..m).map(|i| grid::tuple(&vals, i)).collect();
            for (i, a) in all.iter().enumerate() { for (j, b) in all.iter().enumerate() {
                if (i * 31 + j) % $step != 0 { continue; }
                let (x, y) = (Vector::<$t, $n>::from(a.map(|v| v as $t)), Vector::<$t, $n>::from(b.map(|v| v as $t)));
                let (a, b) = (a.map(|v| v as $t as f64), b.map(|v| v as $t as f64));
                let bb = md::dot(&b, &b);
                if bb == 0.0 { continue; }
                s.case(|| format!(concat!(stringify!($t), " {:?} and {:?}"), a, b), |c| {
                    let (mut d, mut e) = (0.0, 0.0f64);
                    for k in 0..$n { d += a[k] * b[k]; e += f64::abs(a[k] * b[k]); }
                    let (p, r) = (x.project(&y), x.reflect(&y));
                    for k in 0..$n {
                        if f64::abs(b[k]) * e / bb < 1e-30 { continue; }
                        c.scaled("project", p[k], b[k] * d / bb, f64::abs(b[k]) * e / bb, $tol);
                        c.scaled("reflect", r[k], a[k] - 2.0 * b[k] * d / bb, f64::abs(a[k]) + 2.0 * f64::abs(b[k]) * e / bb, $tol);
                    }
                    let n = bb.sqrt();
                    let u = y.normalize();
                    for k in 0..$n { c.scaled("normalize", u[k], b[k] / n, f64::abs(b[k]) / n, $tol); }
                });
            } }
        }}; }
        beside!(f64, 2, 1e-14, 1);
        beside!(f64, 3, 1e-14, ctx.pick(61, 1));
        beside!(f64, 4, 1e-14, ctx.grade(4999, 101, 7));
        beside!(f32, 2, 5e-6, 3);
        beside!(f32, 3, 5e-6, ctx.pick(197, 7));
    });
    ctx.section("high-p-norms", |s| {
        for p in (1..=40).chain([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 1000]) {
            for i in 0..grid::count(4, 3) {
                let a: [f64; 3] = grid::tuple(&[0.0, 1.0, -0.5, -1.25], i);
                s.case(|| format!("p = {p}, {a:?}"), |c| {
                    let top = a.iter().fold(0.0f64, |m, v| m.max(v.abs()));
                    let w = if top == 0.0 { 0.0 } else { top * a.iter().map(|v| (v.abs() / top).powi(p as i32)).sum::<f64>().powf(1.0 / p as f64) };
                    c.close("lp_norm", Vector3::from(a).lp_norm(p), w, 1e-12);
                    c.close("LpNorm", Vector3::from(a).apply_norm(&LpNorm::new(p)), w, 1e-12);
                    let b = [0.25, 0.5, -1.0];
                    let d = md::sub(&a, &b);
                    let top = d.iter().fold(0.0f64, |m, v| m.max(v.abs()));
                    let w = if top == 0.0 { 0.0 } else { top * d.iter().map(|v| (v.abs() / top).powi(p as i32)).sum::<f64>().powf(1.0 / p as f64) };
                    c.close("LpNorm distance", Vector3::from(a).apply_metric_distance(&Vector3::from(b), &LpNorm::new(p)), w, 1e-12);
                });
            }
        }
    });
    ctx.section("constants-and-finiteness", |s| {
        s.case(|| "unit vectors, zero, origin".into(), |c| {
            c.eq("unit_x", (Vector1::<f64>::unit_x(), Vector2::<f64>::unit_x(), Vector3::<f64>::unit_x(), Vector4::<f64>::unit_x()), [1.0, 1.0, 0.0, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0]);
            c.eq("unit_y", (Vector2::<f64>::unit_y(), Vector3::<f64>::unit_y(), Vector4::<f64>::unit_y()), [0.0, 1.0, 0.0, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0]);
            c.eq("unit_z", (Vector3::<f64>::unit_z(), Vector4::<f64>::unit_z()), [0.0, 0.0, 1.0, 0.0, 0.0, 1.0, 0.0]);
            c.eq("unit_w", Vector4::<f64>::unit_w(), [0.0, 0.0, 0.0, 1.0]);
            c.eq("zero", (Vector1::<f64>::zero(), Vector2::<f64>::zero(), Vector3::<f64>::zero(), Vector4::<f64>::zero()), [0.0; 10]);
            c.eq("origin", (Point1::<f64>::origin(), Point2::<f64>::origin(), Point3::<f64>::origin()), [0.0; 6]);
        });
        for n in 0..4usize {
            for bad in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
                s.case(|| format!("{bad} at position {n}"), |c| {
                    let mut a = [1.0, -2.0, 3.0, 0.5];
                    a[n] = bad;
                    c.same("vector is not finite", Vector4::from(a).is_finite(), false);
                    if n < 3 {
                        c.same("vector is not finite", Vector3::new(a[0], a[1], a[2]).is_finite(), false);
                    }
                    if n < 2 {
                        c.same("vector is not finite", Vector2::new(a[0], a[1]).is_finite(), false);
                    }
                });
            }
        }
    });
    ctx.finish();
}
