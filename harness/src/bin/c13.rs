//! C13: transpose, rows, columns, trace, diagonal, norms and structure tests are exact.
use cglinalg_core::*;
use cglmc::*;

fn fill<const R: usize, const C: usize>(seed: i64) -> model::M<R, C> {
    let d: [f64; 36] = grid::distinct(seed);
    let mut m = [[0.0; C]; R];
    for r in 0..R {
        for c in 0..C {
            m[r][c] = d[r * C + c];
        }
    }
    m
}
fn entries<const R: usize, const C: usize>(t: &[f64]) -> model::M<R, C> {
    let mut m = [[0.0; C]; R];
    for r in 0..R {
        for c in 0..C {
            m[r][c] = t[r * C + c];
        }
    }
    m
}
fn lib<const R: usize, const C: usize>(m: &model::M<R, C>) -> Matrix<f64, R, C> {
    Matrix::from(model::cols(m))
}
fn lib32<const R: usize, const C: usize>(m: &model::M<R, C>) -> Matrix<f32, R, C> {
    Matrix::from(model::cols(m).map(|c| c.map(|x| x as f32)))
}
fn libi<const R: usize, const C: usize>(m: &model::M<R, C>) -> Matrix<i32, R, C> {
    Matrix::from(model::cols(m).map(|c| c.map(|x| x as i32)))
}

/// Any shape.
fn rect<const R: usize, const C: usize>(c: &mut Case, a: &model::M<R, C>, b: &model::M<R, C>) {
    let (x, y) = (lib(a), lib(b));
    c.eq("transpose", x.transpose(), model::cols(&model::tr(a)));
    c.eq("transpose twice", x.transpose().transpose(), x);
    c.eq("transpose i32", libi(a).transpose(), model::cols(&model::tr(a)).map(|q| q.map(|z| z as i32)));
    for r in 0..R {
        c.eq("row of the matrix is column of the transpose", x.row(r), x.transpose().column(r));
        c.eq("row", x.row(r), a[r]);
    }
    let zero = a.iter().flatten().all(|v| *v == 0.0);
    c.same("is_zero", x.is_zero(), zero);
    c.same("is_zero i32", libi(a).is_zero(), a.iter().flatten().all(|v| *v as i32 == 0));
    c.same("is_finite", x.is_finite(), true);
    let norms = |m: &model::M<R, C>| {
        let (mut l1, mut li, mut sq) = (0.0f64, 0.0f64, 0.0f64);
        for q in 0..C {
            let mut s = 0.0;
            for r in 0..R {
                s += m[r][q].abs();
            }
            l1 = l1.max(s);
        }
        for r in 0..R {
            let mut s = 0.0;
            for q in 0..C {
                s += m[r][q].abs();
            }
            li = li.max(s);
        }
        for v in m.iter().flatten() {
            sq += v * v;
        }
        (l1, li, sq)
    };
    let (l1, li, sq) = norms(a);
    c.eq("l1_norm", x.l1_norm(), l1);
    c.eq("linf_norm", x.linf_norm(), li);
    c.eq("norm_squared", x.norm_squared(), sq);
    c.eq("magnitude_squared", x.magnitude_squared(), sq);
    c.rel("norm", x.norm(), sq.sqrt(), 1e-14);
    c.rel("magnitude", x.magnitude(), sq.sqrt(), 1e-14);
    if l1 < 1e9 && (l1 == 0.0 || l1 > 1e-9) {
        let (x, y) = (lib32(a), lib32(b));
        c.rel("f32 norm", (x.norm(), x.magnitude(), Normed::norm(&x), x.apply_norm(&FrobeniusNorm::new())), [sq.sqrt(); 4], 1e-5);
        c.rel("f32 norm squared", (x.norm_squared(), x.magnitude_squared()), [sq; 2], 1e-5);
        c.rel("f32 l1_norm", (x.l1_norm(), x.apply_norm(&L1MatrixNorm::new())), [l1; 2], 1e-5);
        c.rel("f32 linf_norm", (x.linf_norm(), x.apply_norm(&LinfMatrixNorm::new())), [li; 2], 1e-5);
        let dq: f64 = a.iter().flatten().zip(b.iter().flatten()).map(|(p, q)| (p - q) * (p - q)).sum();
        c.rel("f32 metric_distance", (x.metric_distance(&y), Normed::distance(&x, &y)), [dq.sqrt(); 2], 1e-5);
        c.rel("f32 metric_distance_squared", (x.metric_distance_squared(&y), Normed::distance_squared(&x, &y)), [dq; 2], 1e-5);
    }
    c.eq("apply l1", x.apply_norm(&L1MatrixNorm::new()), l1);
    c.eq("apply linf", x.apply_norm(&LinfMatrixNorm::new()), li);
    c.rel("apply frobenius", x.apply_norm(&FrobeniusNorm::new()), sq.sqrt(), 1e-14);
    let mut d = *a;
    for r in 0..R {
        for q in 0..C {
            d[r][q] -= b[r][q];
        }
    }
    let (d1, di, dq) = norms(&d);
    c.eq("distance l1", x.apply_metric_distance(&y, &L1MatrixNorm::new()), d1);
    c.eq("distance linf", x.apply_metric_distance(&y, &LinfMatrixNorm::new()), di);
    c.rel("distance frobenius", x.apply_metric_distance(&y, &FrobeniusNorm::new()), dq.sqrt(), 1e-14);
    c.rel("metric_distance", x.metric_distance(&y), dq.sqrt(), 1e-14);
    c.eq("metric_distance_squared", x.metric_distance_squared(&y), dq);
    c.eq("trait norm_squared", Normed::norm_squared(&x), sq);
    c.rel("trait norm", Normed::norm(&x), sq.sqrt(), 1e-14);
    c.rel("trait distance", Normed::distance(&x, &y), dq.sqrt(), 1e-14);
    c.eq("trait distance_squared", Normed::distance_squared(&x, &y), dq);
    // line swaps, every pair
    for i in 0..R {
        for j in 0..R {
            let mut m = *a;
            m.swap(i, j);
            let mut z = x;
            z.swap_rows(i, j);
            c.eq("swap_rows", z, model::cols(&m));
        }
    }
    for i in 0..C {
        for j in 0..C {
            let mut m = model::cols(a);
            m.swap(i, j);
            let mut z = x;
            z.swap_columns(i, j);
            c.eq("swap_columns", z, m);
        }
    }
    c.eq("zero", Matrix::<f64, R, C>::zero(), [[0.0; R]; C]);
}
macro_rules! square {
    ($c:ident, $N:literal, $a:expr) => {{
        let a: model::M<$N, $N> = $a;
        let x = lib(&a);
        let xi = libi(&a);
        { let mut z = x; z.transpose_mut(); $c.eq("transpose_mut", z, model::cols(&model::tr(&a))); }
        { let mut z = xi; z.transpose_mut(); $c.eq("transpose_mut i32", z, xi.transpose()); }
        let mut d = [0.0; $N];
        let mut t = 0.0;
        for i in 0..$N { d[i] = a[i][i]; t += a[i][i]; }
        $c.eq("diagonal", x.diagonal(), d);
        $c.eq("diagonal i32", xi.diagonal(), d.map(|v| v as i32));
        // a sum, in whatever order
        let size: f64 = d.iter().map(|v| f64::abs(*v)).sum();
        $c.scaled("trace", x.trace(), t, size, 2e-15);
        $c.scaled("trace of the transpose", x.transpose().trace(), t, size, 2e-15);
        let mut dm = [[0.0; $N]; $N];
        let mut sm = [[0.0; $N]; $N];
        for i in 0..$N { dm[i][i] = d[i]; sm[i][i] = d[0]; }
        $c.eq("from_diagonal", Matrix::<f64, $N, $N>::from_diagonal(&Vector::from(d)), dm);
        $c.eq("from_diagonal_value", Matrix::<f64, $N, $N>::from_diagonal_value(d[0]), sm);
        $c.eq("from_scale", Matrix::<f64, $N, $N>::from_scale(d[0]), sm);
        $c.eq("from_nonuniform_scale", Matrix::<f64, $N, $N>::from_nonuniform_scale(&Vector::from(d)), dm);
        let mut sym = true;
        let mut diag = true;
        let mut id = true;
        for i in 0..$N { for j in 0..$N {
            sym &= a[i][j] == a[j][i];
            diag &= i == j || a[i][j] == 0.0;
            id &= a[i][j] == if i == j { 1.0 } else { 0.0 };
        } }
        $c.same("is_symmetric", x.is_symmetric(), sym);
        $c.same("is_diagonal", x.is_diagonal(), diag);
        $c.same("is_identity", x.is_identity(), id);
        $c.same("f32 is_symmetric", lib32(&a).is_symmetric(), sym);
        $c.same("f32 is_diagonal", lib32(&a).is_diagonal(), diag);
        $c.same("f32 is_identity", lib32(&a).is_identity(), id);
        if a.iter().flatten().all(|v| v.fract() == 0.0) { $c.same("is_identity i32", xi.is_identity(), id); }
        $c.same("is_square", x.is_square(), true);
    }};
}

fn main() {
    let ctx = Ctx::start("C13");
    ctx.bound("all 16 shapes up to 4x4 and six beyond: all pairs of distinct-entry fills, fills rescaled by 2^-40 .. 2^40; all matrices over {0, 1, -2} with at most 9 entries (8 in the quick tier for rectangular ones)");
    ctx.bound("structure tests: from zero, identity, diagonal, symmetric and constant matrices of sizes 1..4 (5 and 6 with one-entry deviations), every deviation in one or two entries by 1, 0.5 or 0.001 in both signs");
    ctx.assume("the structure tests allow rounding-size deviations; deviations of 0.001 or more must be noticed");
    let nf = ctx.grade(10i64, 60, 200);
    macro_rules! shapes { ($(($R:literal, $C:literal))*) => {$(
        {
            #[inline(never)]
            fn run(ctx: &Ctx, nf: i64) {
                ctx.section(concat!("shape-", $R, "x", $C), |s| {
                    for i in 0..nf { for j in 0..nf {
                        s.case(|| format!("fills {i}, {j}"), |c| rect::<$R, $C>(c, &fill(i), &fill(j + 1)));
                    } }
                    for e in [-40, -20, -10, 10, 20, 40] { for i in 0..nf {
                        let z = 2f64.powi(e);
                        s.case(|| format!("2^{e} times fill {i}"), |c| rect::<$R, $C>(c, &fill(i).map(|r| r.map(|x| x * z)), &fill(i + 3).map(|r| r.map(|x| x * z))));
                    } }
                    let letters: &[f64] = &[0.0, 1.0, -2.0];
                    let n = $R * $C;
                    if n <= ctx.pick(8, 9) {
                        for i in 0..grid::count(3, n) {
                            let t: [f64; 16] = grid::tuple(letters, i);
                            s.case(|| format!("entries {:?}", &t[..n]), |c| rect::<$R, $C>(c, &entries(&t), &fill(i as i64 % 11)));
                        }
                    }
                    // one-entry matrices and one-entry deviations
                    for k in 0..n { for v in [1.0, -1.0, 0.5, -7.0, 1.0 / 1073741824.0, 1073741824.0] {
                        let mut t = [0.0; 16];
                        t[k] = v;
                        s.case(|| format!("only entry {k} = {v}"), |c| rect::<$R, $C>(c, &entries(&t), &entries(&[0.0; 16])));
                    } }
                });
            }
            run(&ctx, nf);
        }
    )*}; }
    shapes!((1,1)(1,2)(1,3)(1,4)(2,1)(2,2)(2,3)(2,4)(3,1)(3,2)(3,3)(3,4)(4,1)(4,2)(4,3)(4,4));
    macro_rules! squares { ($($N:literal)*) => {$(
        ctx.section(concat!("square-", $N), |s| {
            let n = $N * $N;
            if n <= 9 {
                let letters: &[f64] = if n <= 4 { &[0.0, 1.0, -2.0, 0.5, -1.0] } else { &[0.0, 1.0, -2.0] };
                for i in 0..grid::count(letters.len(), n) {
                    let t: [f64; 16] = grid::tuple(letters, i);
                    s.case(|| format!("entries {:?}", &t[..n]), |c| square!(c, $N, entries(&t)));
                }
            }
            for i in 0..ctx.grade(40, 400, 4000) {
                s.case(|| format!("fill {i}"), |c| square!(c, $N, fill(i)));
            }
            // structured matrices and all their one- and two-entry deviations
            let mut bases: Vec<model::M<$N, $N>> = vec![[[0.0; $N]; $N], model::ident(), [[2.0; $N]; $N]];
            let f: model::M<$N, $N> = fill(3);
            let mut sym = f;
            let mut dg = [[0.0; $N]; $N];
            let mut skew = f;
            for i in 0..$N { dg[i][i] = f[i][i]; for j in 0..$N { sym[i][j] = f[i][j] + f[j][i]; skew[i][j] = f[i][j] - f[j][i]; } }
            bases.extend([sym, dg, skew]);
            for (bi, b) in bases.iter().enumerate() {
                for k in 0..n { for v in [1.0, -1.0, 0.5, -0.5, 0.001, -0.001] {
                    let mut m = *b;
                    m[k / $N][k % $N] += v;
                    s.case(|| format!("base {bi} with entry {k} moved by {v}"), |c| square!(c, $N, m));
                    for l in 0..n { for w in [1.0, -1.0, 0.5] {
                        let mut m2 = m;
                        m2[l / $N][l % $N] += w;
                        s.case(|| format!("base {bi} with entries {k}, {l} moved by {v}, {w}"), |c| square!(c, $N, m2));
                    } }
                } }
            }
        });
    )*}; }
    squares!(1 2 3 4);
    macro_rules! wide { ($(($R:literal, $C:literal))*) => {$(
        ctx.section(concat!("shape-", $R, "x", $C), |s| {
            for i in 0..ctx.pick(3i64, 20) { for j in 0..ctx.pick(3i64, 20) {
                s.case(|| format!("fills {i}, {j}"), |c| rect::<$R, $C>(c, &fill(i), &fill(j + 1)));
            } }
            for k in 0..$R * $C { for v in [1.0, -7.0] {
                let mut t = [0.0; 36];
                t[k] = v;
                s.case(|| format!("only entry {k} = {v}"), |c| rect::<$R, $C>(c, &entries(&t), &entries(&[0.0; 36])));
            } }
        });
    )*}; }
    wide!((5, 1)(1, 5)(5, 3)(2, 6)(6, 5)(5, 5));
    macro_rules! wide_squares { ($($N:literal)*) => {$(
        ctx.section(concat!("square-", $N), |s| {
            for i in 0..ctx.pick(20, 200) {
                s.case(|| format!("fill {i}"), |c| square!(c, $N, fill(i)));
            }
            let f: model::M<$N, $N> = fill(3);
            let mut sym = f;
            let mut dg = [[0.0; $N]; $N];
            for i in 0..$N { dg[i][i] = f[i][i]; for j in 0..$N { sym[i][j] = f[i][j] + f[j][i]; } }
            for (bi, b) in [[[0.0; $N]; $N], model::ident(), [[2.0; $N]; $N], sym, dg].iter().enumerate() {
                s.case(|| format!("base {bi}"), |c| square!(c, $N, *b));
                for k in 0..$N * $N { for v in [1.0, -0.5, 0.001] {
                    let mut m = *b;
                    m[k / $N][k % $N] += v;
                    s.case(|| format!("base {bi} with entry {k} moved by {v}"), |c| square!(c, $N, m));
                } }
            }
        });
    )*}; }
    wide_squares!(5 6);
    ctx.section("constants", |s| s.case(|| "identity, zero".into(), |c| {
        macro_rules! n { ($($N:literal)*) => {$(
            c.eq("identity", Matrix::<f64, $N, $N>::identity(), model::ident::<$N>());
            c.eq("identity i32", Matrix::<i32, $N, $N>::identity(), model::ident::<$N>());
            c.same("identity is identity", Matrix::<f64, $N, $N>::identity().is_identity(), true);
            c.same("zero is zero", Matrix::<f64, $N, $N>::zero().is_zero(), true);
            c.same("identity is not zero", Matrix::<f64, $N, $N>::identity().is_zero(), false);
            c.same("identity is diagonal and symmetric", (Matrix::<f64, $N, $N>::identity().is_diagonal(), Matrix::<f64, $N, $N>::identity().is_symmetric()), (true, true));
            c.eq("trace of the identity", Matrix::<f64, $N, $N>::identity().trace(), $N as f64);
        )*}; }
        n!(1 2 3 4 5 6 8);
    }));
    ctx.section("finiteness", |s| {
        for k in 0..16 {
            for v in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
                s.case(|| format!("entry {k} = {v}"), |c| {
                    let mut t: [f64; 16] = grid::distinct(1);
                    t[k] = v;
                    c.same("4x4", Matrix4x4::from(t).is_finite(), false);
                    macro_rules! n { ($($R:literal $C:literal $N:literal,)*) => {$( if k < $N {
                        let mut b = [0.0; $N];
                        b.copy_from_slice(&t[..$N]);
                        c.same("smaller", Matrix::<f64, $R, $C>::from(b).is_finite(), false);
                    } )*}; }
                    n!(1 1 1, 2 2 4, 3 3 9, 2 3 6, 3 2 6, 4 3 12, 3 4 12, 1 4 4, 4 1 4,);
                });
            }
        }
    });
    ctx.bound("structure tests: one entry of a diagonal, symmetric, identity or zero matrix of size 1 to 6 off by 2^-10 .. 2^-40 (f32: 2^-10, 2^-16) of the entries' size, entries of size 2^-20, 1 and 2^20");
    ctx.section("nearly-structured", |s| {
        macro_rules! near { ($t:ident, $N:literal, $exps:expr) => {{
            for i in 0..$N { for j in 0..$N { for e in $exps { for big in [1.0, 1048576.0, 1.0 / 1024.0] { for sg in [1.0, -1.0] {
                s.case(|| format!("{} size {}, entry ({i},{j}) off by {sg} * {big} * 2^{e}", stringify!($t), $N), |c| {
                    let d = sg * big * 2f64.powi(e);
                    // for small entries a deviation of rounding size is not asserted
                    let visible = d.abs() > 1e4 * $t::EPSILON as f64;
                    let at = |m: &Matrix<$t, $N, $N>| { let mut x = *m; x[i][j] += d as $t; x };
                    if i != j && visible {
                        c.same("is_diagonal", at(&Matrix::<$t, $N, $N>::from_diagonal_value(big as $t)).is_diagonal(), false);
                        c.same("is_symmetric", at(&Matrix::<$t, $N, $N>::from_fill(big as $t)).is_symmetric(), false);
                        c.same("is_symmetric", at(&Matrix::<$t, $N, $N>::zero()).is_symmetric(), false);
                    } else if i == j {
                        c.same("is_diagonal", at(&Matrix::<$t, $N, $N>::from_diagonal_value(big as $t)).is_diagonal(), true);
                        c.same("is_symmetric", at(&Matrix::<$t, $N, $N>::from_fill(big as $t)).is_symmetric(), true);
                    }
                    let one = at(&Matrix::<$t, $N, $N>::identity());
                    c.same("is_identity", one.is_identity(), one[i][j] == if i == j { 1.0 } else { 0.0 });
                    c.same("is_zero", at(&Matrix::<$t, $N, $N>::zero()).is_zero(), false);
                });
            } } } } }
        }}; }
        near!(f64, 1, [-10, -20, -30, -40]);
        near!(f64, 2, [-10, -20, -30, -40]);
        near!(f64, 3, [-10, -20, -30, -40]);
        near!(f64, 4, [-10, -20, -30, -40]);
        near!(f64, 5, [-10, -30]);
        near!(f64, 6, [-10, -30]);
        near!(f32, 2, [-10, -16]);
        near!(f32, 3, [-10, -16]);
        near!(f32, 4, [-10, -16]);
    });
    ctx.finish();
}
