//! C14: determinant is the alternating sum; the inverse exists exactly when it should.
use cglinalg_core::*;
use cglmc::*;

/// Entries must be small dyadic rationals, so that the determinant is exact in any order.
macro_rules! one {
    ($c:ident, $N:literal, $a:expr, $det_exact:expr) => {{
        let a: model::M<$N, $N> = $a;
        let x: Matrix<f64, $N, $N> = Matrix::from(model::cols(&a));
        let d = model::det(&a);
        $c.eq("determinant", x.determinant(), d);
        $c.eq("determinant of the transpose", x.transpose().determinant(), d);
        let y = x.try_inverse();
        $c.same("try_inverse is present", y.is_some(), d != 0.0);
        if d == 0.0 {
            $c.same("is_invertible of a singular matrix", x.is_invertible(), false);
        } else if d.abs() > 1.0e-12 {
            $c.same("is_invertible", x.is_invertible(), true);
        }
        if let (Some(y), Some(w)) = (y, model::inv(&a)) {
            let top = w.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs()));
            let k = 1.0 / top;
            let n = |m: &[[f64; $N]; $N]| m.map(|r| r.map(|v| v * k));
            let yy: [[f64; $N]; $N] = *y.as_ref();
            $c.close("try_inverse (relative to its largest entry)", n(&yy), n(&model::cols(&w)), 1e-10);
            let zz: [[f64; $N]; $N] = *x.inverse().as_ref();
            $c.close("inverse (relative to its largest entry)", n(&zz), n(&yy), 1e-12);
            let e = model::cols(&model::ident::<$N>());
            let tol = 1e-12 * (1.0 + top * a.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs())));
            $c.close("matrix * inverse", x * y, e, tol);
            $c.close("inverse * matrix", y * x, e, tol);
        }
        if $det_exact {
            // the same entries in single precision and as integers (products stay exact there too)
            let z: Matrix<f32, $N, $N> = Matrix::from(model::cols(&a).map(|q| q.map(|v| v as f32)));
            $c.eq("determinant f32", z.determinant(), d);
            $c.same("try_inverse f32 is present", z.try_inverse().is_some(), d != 0.0);
            if d == 0.0 { $c.same("is_invertible f32 singular", z.is_invertible(), false); }
            if d.abs() > 1.0e-4 { $c.same("is_invertible f32", z.is_invertible(), true); }
            if let Some(y) = z.try_inverse() {
                $c.close("f32 matrix * inverse", z * y, model::cols(&model::ident::<$N>()), 4e-3);
            }
            if a.iter().flatten().all(|v| v.fract() == 0.0) {
                let z: Matrix<i32, $N, $N> = Matrix::from(model::cols(&a).map(|q| q.map(|v| v as i32)));
                $c.eq("determinant i32", z.determinant(), d);
                let z: Matrix<i64, $N, $N> = Matrix::from(model::cols(&a).map(|q| q.map(|v| v as i64)));
                $c.eq("determinant i64", z.determinant(), d);
            }
        }
    }};
}
macro_rules! runner { ($name:ident, $N:literal) => {
    #[inline(never)]
    fn $name(c: &mut Case, a: model::M<$N, $N>, exact: bool) { one!(c, $N, a, exact) }
}; }
runner!(one1, 1);
runner!(one2, 2);
runner!(one3, 3);
runner!(one4, 4);

fn ent<const N: usize>(t: &[f64]) -> model::M<N, N> {
    let mut m = [[0.0; N]; N];
    for r in 0..N {
        for c in 0..N {
            m[r][c] = t[r * N + c];
        }
    }
    m
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

fn main() {
    let ctx = Ctx::start("C14");
    ctx.bound("1x1 over 13 values; all 2x2 over 9 values; all 3x3 over {0,1,-1,2} (thorough: 5 values); all 4x4 over {0,1} (thorough: {0,1,-1})");
    ctx.bound("4x4: every permutation pattern with every assignment of 3 values, every pattern with one or two extra entries, distinct-entry fills, rank-deficient fills, rescalings 2^-20 .. 2^20 in every row and column");
    ctx.assume("entries are dyadic, so the determinant is exact whatever the summation order; the reports of is_invertible are only required for determinants that are zero or clearly above rounding size");
    ctx.section("1x1", |s| {
        for v in [0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 7.0, -0.25, 1024.0, 1048576.0, 1.0 / 1048576.0, -1.0 / 1048576.0, 1.0 / 1099511627776.0] {
            s.case(|| format!("[{v}]"), |c| one1(c, [[v]], v.abs() < 1e5 && v.abs() > 1e-3));
        }
    });
    ctx.section("2x2", |s| {
        let l: &[f64] = &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 5.0, -0.25, 8.0];
        for i in 0..grid::count(l.len(), 4) {
            let t: [f64; 4] = grid::tuple(l, i);
            s.case(|| format!("rows {t:?}"), |c| one2(c, ent(&t), true));
            for k in [1.0 / 1048576.0, 1048576.0, 1.0 / 1073741824.0] {
                if i % 3 == 0 || ctx.thorough() {
                    let u = t.map(|v| v * k);
                    s.case(|| format!("rows {u:?}"), |c| one2(c, ent(&u), false));
                }
            }
        }
    });
    let l3: &[f64] = ctx.pick(&[0.0, 1.0, -1.0, 2.0], &[0.0, 1.0, -1.0, 2.0, -3.0]);
    let k = l3.len();
    ctx.par("3x3", grid::count(k, 3), |hi, s| {
        let h: [f64; 3] = grid::tuple(l3, hi);
        for lo in 0..grid::count(k, 6) {
            let l: [f64; 6] = grid::tuple(l3, lo);
            let t = [h[0], l[0], l[1], l[2], h[1], l[3], l[4], l[5], h[2]];
            s.case(|| format!("rows {t:?}"), |c| one3(c, ent(&t), true));
        }
    });
    ctx.section("3x3-fills", |s| {
        for i in 0..ctx.pick(3000, 60000) {
            let mut t: [f64; 9] = grid::distinct(i);
            let j = i as usize;
            t[j % 9] += ((j / 9) % 13) as f64 - 6.0;
            t[(j / 3) % 9] -= ((j / 31) % 7) as f64;
            s.case(|| format!("rows {t:?}"), |c| one3(c, ent(&t), true));
            for (r, e) in [(0, 20), (1, -20), (2, 10), (0, -10)] {
                if j % 4 == 0 {
                    let mut u = t;
                    for q in 0..3 { u[r * 3 + q] *= 2f64.powi(e); }
                    s.case(|| format!("rows {u:?}"), |c| one3(c, ent(&u), false));
                    let u = t.map(|v| v * 2f64.powi(e));
                    s.case(|| format!("rows {u:?}"), |c| one3(c, ent(&u), false));
                }
            }
        }
    });
    let l4: &[f64] = ctx.pick(&[0.0, 1.0], &[0.0, 1.0, -1.0]);
    let k = l4.len();
    ctx.par("4x4-all", grid::count(k, 6), |hi, s| {
        let h: [f64; 6] = grid::tuple(l4, hi);
        for lo in 0..grid::count(k, 10) {
            let l: [f64; 10] = grid::tuple(l4, lo);
            let mut t = [0.0; 16];
            t[..6].copy_from_slice(&h);
            t[6..].copy_from_slice(&l);
            s.case(|| format!("rows {t:?}"), |c| one4(c, ent(&t), true));
        }
    });
    // permutation patterns: each of the 24 signed products alone
    let ps = perms(4);
    ctx.par("4x4-permutations", ps.len(), |pi, s| {
        let p = &ps[pi];
        let l: &[f64] = &[1.0, -2.0, 3.0];
        for i in 0..81 {
            let v: [f64; 4] = grid::tuple(l, i);
            let mut t = [0.0; 16];
            for r in 0..4 { t[r * 4 + p[r]] = v[r]; }
            s.case(|| format!("rows {t:?}"), |c| one4(c, ent(&t), true));
            // one and two extra entries: every cofactor position on top of every pattern
            for a in 0..16 {
                let mut u = t;
                u[a] += 5.0;
                s.case(|| format!("rows {u:?}"), |c| one4(c, ent(&u), true));
                if i % ctx.pick(9, 1) == 4 % ctx.pick(9, 1) {
                    for b in 0..16 {
                        let mut w = u;
                        w[b] -= 3.0;
                        s.case(|| format!("rows {w:?}"), |c| one4(c, ent(&w), true));
                    }
                }
            }
            for e in [-20, -7, 10, 20] {
                let u = t.map(|x| x * 2f64.powi(e));
                s.case(|| format!("rows {u:?}"), |c| one4(c, ent(&u), false));
                for r in 0..4 {
                    let mut u = t;
                    for q in 0..4 { u[r * 4 + q] *= 2f64.powi(e); }
                    s.case(|| format!("rows {u:?}"), |c| one4(c, ent(&u), false));
                    let mut u = t;
                    for q in 0..4 { u[q * 4 + r] *= 2f64.powi(e); }
                    s.case(|| format!("rows {u:?}"), |c| one4(c, ent(&u), false));
                }
            }
        }
    });
    ctx.par("4x4-fills", ctx.grade(1500, 30000, 1000000), |i, s| {
        let mut t: [f64; 16] = grid::distinct(i as i64);
        for (q, x) in t.iter_mut().enumerate() { *x = (*x + ((i * (q + 1) + q * q) % 11) as f64) % 13.0; }
        s.case(|| format!("rows {t:?}"), |c| one4(c, ent(&t), false));
        for e in [-20, -5, 12] {
            let u = t.map(|x| x * 2f64.powi(e));
            s.case(|| format!("rows {u:?}"), |c| one4(c, ent(&u), false));
        }
        // exactly rank deficient: a row (column) replaced by a combination of two others
        for r in 0..4 {
            let (p, q) = ((r + 1) % 4, (r + 2) % 4);
            let (mut u, mut w) = (t, t);
            for k in 0..4 {
                u[r * 4 + k] = 2.0 * t[p * 4 + k] - t[q * 4 + k];
                w[k * 4 + r] = t[k * 4 + p] + 3.0 * t[k * 4 + q];
            }
            s.case(|| format!("rows {u:?}"), |c| one4(c, ent(&u), false));
            s.case(|| format!("rows {w:?}"), |c| one4(c, ent(&w), false));
        }
    });
    // Every scale for which the determinant is a normal number.
    ctx.bound("every scale: all permutation patterns and distinct fills of each size scaled by 2^e, |N e| up to 900 (f64) and 100 (f32)");
    ctx.section("every-scale", |s| {
        macro_rules! scales { ($N:literal) => {{
            let mut base: Vec<model::M<$N, $N>> = Vec::new();
            for p in perms($N) {
                let mut m = [[0.0; $N]; $N];
                for r in 0..$N { m[r][p[r]] = [1.0, -2.0, 3.0, 0.5][r]; }
                base.push(m);
            }
            for i in 0..6 {
                let mut m = [[0.0; $N]; $N];
                for r in 0..$N { for q in 0..$N { m[r][q] = ((3 * r + 5 * q + i * (r * q + 1)) % 7) as f64 - 2.0; } m[r][r] += 9.0; }
                base.push(m);
            }
            let lim = 900 / $N;
            for m in &base {
                for e in (-12..=12).map(|k: i32| k * lim / 12) {
                    s.case(|| format!("2^{e} * {m:?}"), |c| {
                        let k = 2f64.powi(e);
                        let x: Matrix<f64, $N, $N> = Matrix::from(model::cols(m).map(|r| r.map(|v| v * k)));
                        let w = model::cols(&model::inv(m).unwrap());
                        c.close("determinant", x.determinant() / 2f64.powi(e * $N), model::det(m), 1e-12);
                        let y = x.try_inverse();
                        c.truth("try_inverse is present", y.is_some());
                        if let Some(y) = y {
                            let yy: [[f64; $N]; $N] = *y.as_ref();
                            c.close("try_inverse", yy.map(|r| r.map(|v| v * k)), w, 1e-12);
                            c.close("matrix * inverse", x * y, model::cols(&model::ident::<$N>()), 1e-11);
                            let zz: [[f64; $N]; $N] = *x.inverse().as_ref();
                            c.close("inverse", zz.map(|r| r.map(|v| v * k)), w, 1e-12);
                        }
                    });
                }
                for e in (-6..=6).map(|k: i32| k * (100 / $N) / 6) {
                    s.case(|| format!("f32 2^{e} * {m:?}"), |c| {
                        let k = 2f32.powi(e);
                        let x: Matrix<f32, $N, $N> = Matrix::from(model::cols(m).map(|r| r.map(|v| v as f32 * k)));
                        let w = model::cols(&model::inv(m).unwrap());
                        c.close("determinant", x.determinant() / 2f32.powi(e * $N), model::det(m), 1e-5);
                        let y = x.try_inverse();
                        c.truth("try_inverse is present", y.is_some());
                        if let Some(y) = y {
                            let yy: [[f32; $N]; $N] = *y.as_ref();
                            c.close("try_inverse", yy.map(|r| r.map(|v| v * k)), w, 1e-5);
                        }
                    });
                }
            }
        }}; }
        scales!(1);
        scales!(2);
        scales!(3);
        scales!(4);
    });
    // Entries beside plus and minus one (so are their products), and beside one half; well conditioned.
    ctx.bound("entries beside one: sign patterns of orthogonal rows, every single entry and several whole patterns moved by 1e-9..1e-4, whole or halved rows");
    ctx.bound("mixed sizes: those matrices with every row and column scaled by 2^10 or 2^-10, all combinations");
    ctx.section("beside-one", |s| {
        macro_rules! beside { ($N:literal, $h:expr) => {{
            let h: model::M<$N, $N> = $h;
            let mut all: Vec<model::M<$N, $N>> = Vec::new();
            for d in [1.0e-9, -1.0e-7, 1.0e-6, -3.0e-5, 1.0e-4] {
                for at in 0..$N * $N {
                    let mut m = h;
                    m[at / $N][at % $N] += d;
                    all.push(m);
                }
                for i in 1..4usize {
                    let mut m = h;
                    for r in 0..$N { for q in 0..$N { m[r][q] *= 1.0 + d * (((i * (r + 2) * (q + 3) + q * q + r) % 7) as f64 - 3.0) / 3.0; } }
                    all.push(m);
                }
            }
            let first = all.clone();
            for r in 0..$N {
                for m in first.iter().step_by(5) {
                    let mut m = *m;
                    for q in 0..$N { m[r][q] *= 0.5; }
                    all.push(m);
                }
            }
            all.push(h);
            // rows turned round and columns moved, so that every entry takes both signs
            for m in all.iter() {
                for turn in 0..2 * $N {
                    let mut a = *m;
                    for r in 0..$N { for q in 0..$N { a[r][q] = m[(r + turn) % $N][q] * if turn >= $N && q == turn % $N { -1.0 } else { 1.0 }; } }
                    s.case(|| format!("{a:?}"), |c| {
                        let x: Matrix<f64, $N, $N> = Matrix::from(model::cols(&a));
                        c.close("determinant", x.determinant(), model::det(&a), 2e-14);
                        let w = model::cols(&model::inv(&a).unwrap());
                        match x.try_inverse() {
                            None => { c.truth("try_inverse is present", false); }
                            Some(y) => {
                                c.close("try_inverse", y, w, 1e-13);
                                c.close("matrix * inverse", x * y, model::cols(&model::ident::<$N>()), 1e-13);
                            }
                        }
                        c.same("is_invertible", x.is_invertible(), true);
                    });
                }
            }
            for m in all.iter().step_by(7) {
                for bits in 0..1usize << (2 * $N) {
                    let k = |i: usize| if bits >> i & 1 == 1 { 1024.0 } else { 1.0 / 1024.0 };
                    let mut a = *m;
                    for r in 0..$N { for q in 0..$N { a[r][q] *= k(r) * k($N + q); } }
                    let total: f64 = (0..2 * $N).map(|i| k(i)).product();
                    s.case(|| format!("{a:?}"), |c| {
                        let x: Matrix<f64, $N, $N> = Matrix::from(model::cols(&a));
                        c.close("determinant", x.determinant() / total, model::det(m), 1e-8);
                        let w = model::cols(&model::inv(m).unwrap());
                        match x.try_inverse() {
                            None => { c.truth("try_inverse is present", false); }
                            Some(y) => {
                                let mut v: [[f64; $N]; $N] = *y.as_ref();
                                for q in 0..$N { for r in 0..$N { v[q][r] *= k($N + r) * k(q); } }
                                c.close("try_inverse, the sizes taken out", v, w, 1e-8);
                            }
                        }
                    });
                }
            }
        }}; }
        beside!(1, [[1.0]]);
        beside!(2, [[1.0, 1.0], [1.0, -1.0]]);
        beside!(3, [[1.0, 1.0, 1.0], [1.0, -1.0, 1.0], [-1.0, 1.0, 1.0]]);
        beside!(4, [[1.0, 1.0, 1.0, 1.0], [1.0, -1.0, 1.0, -1.0], [1.0, 1.0, -1.0, -1.0], [1.0, -1.0, -1.0, 1.0]]);
    });
    ctx.bound("terms of mixed sizes: 2x2 over 10 values from 1e-6 to 1e6, 3x3 and 4x4 fills of such values, determinant relative to the sum of its terms' sizes, inverse to that of its cofactors");
    ctx.section("terms-of-mixed-sizes", |s| {
        fn permanent<const N: usize>(a: &model::M<N, N>, rows: u32, cols: u32) -> f64 {
            let Some(r) = (0..N).find(|r| rows >> r & 1 == 1) else { return 1.0 };
            (0..N).filter(|c| cols >> c & 1 == 1).map(|c| a[r][c].abs() * permanent(a, rows & !(1 << r), cols & !(1 << c))).sum()
        }
        /// The determinant of the chosen rows and columns.
        fn minor<const N: usize>(a: &model::M<N, N>, rows: u32, cols: u32) -> f64 {
            let Some(r) = (0..N).find(|r| rows >> r & 1 == 1) else { return 1.0 };
            (0..N).filter(|c| cols >> c & 1 == 1).enumerate().map(|(k, c)| (if k % 2 == 0 { 1.0 } else { -1.0 }) * a[r][c] * minor(a, rows & !(1 << r), cols & !(1 << c))).sum()
        }
        fn one<const N: usize>(c: &mut Case, a: &model::M<N, N>, det: f64, inverse: Option<[[f64; N]; N]>) {
            let all = (1u32 << N) - 1;
            let (d, p) = (minor(a, all, all), permanent(a, all, all));
            c.scaled("determinant", det, d, p, 1e-13);
            if p > 1e5 * d.abs() || d.abs() < 1e-200 { return; }
            let Some(y) = inverse else {
                c.truth("try_inverse is present", false);
                return;
            };
            for i in 0..N { for j in 0..N {
                let (rows, cols) = (all & !(1 << j), all & !(1 << i));
                let w = (if (i + j) % 2 == 0 { 1.0 } else { -1.0 }) * minor(a, rows, cols) / d;
                c.scaled("try_inverse", y[j][i], w, permanent(a, rows, cols) / d.abs() + w.abs() * p / d.abs(), 1e-10);
            } }
        }
        let vals = [1.0, -2.0, 1.0 + 3e-5, 1e-6, -3e-4, 250.0, -4e3, 1e6, 0.5, 3.0];
        macro_rules! mixed { ($N:literal, $n:expr, $at:expr) => {
            for i in 0..$n {
                let mut a = [[0.0; $N]; $N];
                for r in 0..$N { for q in 0..$N { a[r][q] = vals[$at(i, r * $N + q)]; } }
                s.case(|| format!("rows {a:?}"), |c| {
                    let x: Matrix<f64, $N, $N> = Matrix::from(model::cols(&a));
                    one(c, &a, x.determinant(), x.try_inverse().map(|y| *y.as_ref()));
                });
            }
        }; }
        mixed!(2, 10000usize, |i: usize, k: usize| i / 10usize.pow(k as u32) % 10);
        // every number base ten of a sequence of multiples of a unit modulo a prime
        mixed!(3, ctx.grade(6000usize, 300000, 5000000), |i: usize, k: usize| ((i + 1) * 387420489 % 1000000007) / 10usize.pow(k as u32) % 10);
        mixed!(4, ctx.grade(6000usize, 300000, 5000000), |i: usize, k: usize| ((i as u128 + 1) * 2862933555777941 % 10000000000000061) as usize / 10usize.pow(k as u32) % 10);
    });
    ctx.section("inverse-of-singular", |s| s.case(|| "zero matrices".into(), |c| {
        c.panics("1x1", || { let _ = Matrix1x1::<f64>::zero().inverse(); });
        c.panics("2x2", || { let _ = Matrix2x2::<f64>::zero().inverse(); });
        c.panics("3x3", || { let _ = Matrix3x3::<f64>::zero().inverse(); });
        c.panics("4x4", || { let _ = Matrix4x4::<f64>::zero().inverse(); });
    }));
    ctx.finish();
}
