//! C12: matrix arithmetic and products equal the textbook sums in every form and shape.
use cglinalg_core::*;
use cglmc::*;

trait Elem: Copy + Flat + PartialEq + std::fmt::Debug + cglinalg_numeric::SimdScalarSigned + Send + Sync + std::ops::Rem<Output = Self> {
    fn of(x: f64) -> Self;
}
impl Elem for f64 {
    fn of(x: f64) -> f64 {
        x
    }
}
impl Elem for f32 {
    fn of(x: f64) -> f32 {
        x as f32
    }
}
impl Elem for i32 {
    fn of(x: f64) -> i32 {
        x as i32
    }
}
impl Elem for i64 {
    fn of(x: f64) -> i64 {
        x as i64
    }
}
/// Build the library matrix from a row-major reference matrix.
fn lib<S: Elem, const R: usize, const C: usize>(m: &model::M<R, C>) -> Matrix<S, R, C> {
    let mut a = [[S::zero(); R]; C];
    for r in 0..R {
        for c in 0..C {
            a[c][r] = S::of(m[r][c]);
        }
    }
    Matrix::from(a)
}
fn fill<const R: usize, const C: usize>(seed: i64) -> model::M<R, C> {
    let d: [f64; 36] = grid::distinct(seed);
    let mut m = [[0.0; C]; R];
    for r in 0..R {
        for c in 0..C {
            m[r][c] = d[r * C + c];
        }
    }
    m
}
fn basis<const R: usize, const C: usize>(k: usize, v: f64) -> model::M<R, C> {
    let mut m = [[0.0; C]; R];
    m[k / C][k % C] = v;
    m
}
fn from_tuple<const R: usize, const C: usize>(t: &[f64]) -> model::M<R, C> {
    let mut m = [[0.0; C]; R];
    for r in 0..R {
        for c in 0..C {
            m[r][c] = t[r * C + c];
        }
    }
    m
}
fn scaled<const R: usize, const C: usize>(m: model::M<R, C>, e: i32) -> model::M<R, C> {
    m.map(|r| r.map(|x| x * 2f64.powi(e)))
}
macro_rules! forms2 {
    ($c:ident, $name:literal, $x:ident $op:tt $y:ident, $want:expr) => {{
        let w = $want;
        $c.eq(concat!($name, " value-value"), $x $op $y, w);
        $c.eq(concat!($name, " value-ref"), $x $op &$y, w);
        $c.eq(concat!($name, " ref-value"), &$x $op $y, w);
        $c.eq(concat!($name, " ref-ref"), &$x $op &$y, w);
    }};
}
/// Product of an R x K by a K x C matrix in every form (and K x R transposed by K x C).
macro_rules! product {
    ($c:ident, $S:ty, $R:literal, $K:literal, $C:literal, $a:expr, $b:expr) => {{
        let (a, b): (model::M<$R, $K>, model::M<$K, $C>) = ($a, $b);
        let x: Matrix<$S, $R, $K> = lib(&a);
        let y: Matrix<$S, $K, $C> = lib(&b);
        let w = model::cols(&model::mul(&a, &b));
        forms2!($c, "matrix*matrix", x * y, w);
        let xt: Matrix<$S, $K, $R> = lib(&model::tr(&a));
        $c.eq("tr_mul", xt.tr_mul(&y), w);
        $c.eq("operands unchanged", (x, y), (model::cols(&a), model::cols(&b)));
    }};
}
macro_rules! product_sections {
    ($ctx:ident, $S:ident; $(($R:literal, $K:literal, $C:literal))*) => {$(
      {
        #[inline(never)]
        fn run(ctx: &Ctx) {
        #[inline(never)]
        fn one(c: &mut Case, a: model::M<$R, $K>, b: model::M<$K, $C>) {
            product!(c, $S, $R, $K, $C, a, b);
        }
        ctx.section(concat!("product-", stringify!($S), "-", $R, "x", $K, "-", $K, "x", $C), |s| {
            for i in 0..$R * $K {
                for j in 0..$K * $C {
                    s.case(|| format!("basis {i} by basis {j}"), |c| one(c, basis(i, 3.0), basis(j, -2.0)));
                }
            }
            let n = ctx.grade(6i64, 40, 100);
            for i in 0..n {
                for j in 0..n {
                    s.case(|| format!("fill {i} by fill {j}"), |c| one(c, fill(i), fill(j + 3)));
                }
                for j in 0..$K * $C {
                    s.case(|| format!("fill {i} by basis {j}"), |c| one(c, fill(i), basis(j, 1.0)));
                }
            }
            if <$S as Elem>::of(0.5) != <$S as Elem>::of(0.0) {
                for (e, f) in [(40, 0), (0, -40), (-35, -25), (30, 30), (-17, 44), (50, -50)] {
                    for i in 0..ctx.pick(2, 12) {
                        s.case(|| format!("2^{e} fill {i} by 2^{f} fill {i}"), |c| one(c, scaled(fill(i), e), scaled(fill(i + 4), f)));
                    }
                }
            }
            let letters: &[f64] = &[0.0, 1.0, -2.0];
            let e = $R * $K + $K * $C;
            if e <= ctx.pick(8, 11) {
                for i in 0..grid::count(3, e) {
                    let t: [f64; 16] = grid::tuple(letters, i);
                    s.case(|| format!("entries {:?}", &t[..e]), |c| one(c, from_tuple(&t), from_tuple(&t[$R * $K..])));
                }
            }
        });
        }
        run($ctx);
      }
    )*};
}
/// Everything on one shape.
macro_rules! shape_ops {
    ($c:ident, $S:ty, $R:literal, $C:literal, $a:expr, $b:expr, $v:expr, $k:expr, exact_div = $ed:expr) => {{
        let (a, b): (model::M<$R, $C>, model::M<$R, $C>) = ($a, $b);
        let v: [f64; $C] = $v;
        let k: f64 = $k;
        let x: Matrix<$S, $R, $C> = lib(&a);
        let y: Matrix<$S, $R, $C> = lib(&b);
        let ks = <$S as Elem>::of(k);
        let map2 = |f: &dyn Fn(f64, f64) -> f64| { let mut m = a; for r in 0..$R { for q in 0..$C { m[r][q] = f(a[r][q], b[r][q]); } } model::cols(&m) };
        let map1 = |f: &dyn Fn(f64) -> f64| { let mut m = a; for r in 0..$R { for q in 0..$C { m[r][q] = f(a[r][q]); } } model::cols(&m) };
        let sum = map2(&|p, q| p + q);
        let dif = map2(&|p, q| p - q);
        forms2!($c, "matrix+matrix", x + y, sum);
        forms2!($c, "matrix-matrix", x - y, dif);
        { let mut z = x; z += y; $c.eq("+=", z, sum); }
        { let mut z = x; z += &y; $c.eq("+= &", z, sum); }
        { let mut z = x; z -= y; $c.eq("-=", z, dif); }
        { let mut z = x; z -= &y; $c.eq("-= &", z, dif); }
        let neg = map1(&|p| -p);
        $c.eq("-matrix", -x, neg);
        $c.eq("-&matrix", -&x, neg);
        { let mut z = x; z.neg_mut(); $c.eq("neg_mut", z, neg); }
        let sc = map1(&|p| p * k);
        $c.eq("matrix*scalar", x * ks, sc);
        $c.eq("&matrix*scalar", &x * ks, sc);
        forms2!($c, "scalar*matrix", ks * x, sc);
        { let mut z = x; z *= ks; $c.eq("*=", z, sc); }
        if k != 0.0 {
            if $ed(&a, k) {
                let d = map1(&|p| p / k);
                let tol = if size_of::<$S>() == 4 { 1e-6 } else { 1e-14 };
                $c.rel("matrix/scalar", x / ks, d, tol);
                $c.rel("&matrix/scalar", &x / ks, d, tol);
                { let mut z = x; z /= ks; $c.rel("/=", z, d, tol); }
            }
            let m = map1(&|p| p % k);
            $c.eq("matrix%scalar", x % ks, m);
            $c.eq("&matrix%scalar", &x % ks, m);
            { let mut z = x; z %= ks; $c.eq("%=", z, m); }
        }
        let h = map2(&|p, q| p * q);
        $c.eq("component_mul", x.component_mul(&y), h);
        { let mut z = x; z.component_mul_assign(&y); $c.eq("component_mul_assign", z, h); }
        let vl = Vector::<$S, $C>::from(v.map(<$S as Elem>::of));
        let mvw = model::mv(&a, &v);
        forms2!($c, "matrix*vector", x * vl, mvw);
        let mut d = 0.0;
        for r in 0..$R { for q in 0..$C { d += a[r][q] * b[r][q]; } }
        $c.eq("dot", x.dot(&y), d);
        let yt: Matrix<$S, $C, $R> = lib(&model::tr(&b));
        $c.eq("tr_dot", x.tr_dot(&yt), d);
        // the matrix of columns acts on basis vectors by its columns
        $c.eq("zero + matrix", Matrix::<$S, $R, $C>::zero() + x, x);
        $c.eq("operands unchanged", (x, y), (model::cols(&a), model::cols(&b)));
    }};
}
/// The same for shapes beyond 4x4, which have no products.
macro_rules! wide_ops {
    ($c:ident, $S:ty, $R:literal, $C:literal, $a:expr, $b:expr, $k:expr, exact_div = $ed:expr) => {{
        let (a, b): (model::M<$R, $C>, model::M<$R, $C>) = ($a, $b);
        let k: f64 = $k;
        let x: Matrix<$S, $R, $C> = lib(&a);
        let y: Matrix<$S, $R, $C> = lib(&b);
        let ks = <$S as Elem>::of(k);
        let map2 = |f: &dyn Fn(f64, f64) -> f64| { let mut m = a; for r in 0..$R { for q in 0..$C { m[r][q] = f(a[r][q], b[r][q]); } } model::cols(&m) };
        let map1 = |f: &dyn Fn(f64) -> f64| { let mut m = a; for r in 0..$R { for q in 0..$C { m[r][q] = f(a[r][q]); } } model::cols(&m) };
        let sum = map2(&|p, q| p + q);
        let dif = map2(&|p, q| p - q);
        forms2!($c, "matrix+matrix", x + y, sum);
        forms2!($c, "matrix-matrix", x - y, dif);
        { let mut z = x; z += y; $c.eq("+=", z, sum); }
        { let mut z = x; z += &y; $c.eq("+= &", z, sum); }
        { let mut z = x; z -= y; $c.eq("-=", z, dif); }
        { let mut z = x; z -= &y; $c.eq("-= &", z, dif); }
        let neg = map1(&|p| -p);
        $c.eq("-matrix", -x, neg);
        $c.eq("-&matrix", -&x, neg);
        { let mut z = x; z.neg_mut(); $c.eq("neg_mut", z, neg); }
        let sc = map1(&|p| p * k);
        $c.eq("matrix*scalar", x * ks, sc);
        $c.eq("&matrix*scalar", &x * ks, sc);
        forms2!($c, "scalar*matrix", ks * x, sc);
        { let mut z = x; z *= ks; $c.eq("*=", z, sc); }
        if k != 0.0 {
            if $ed(&a, k) {
                let d = map1(&|p| p / k);
                let tol = if size_of::<$S>() == 4 { 1e-6 } else { 1e-14 };
                $c.rel("matrix/scalar", x / ks, d, tol);
                $c.rel("&matrix/scalar", &x / ks, d, tol);
                { let mut z = x; z /= ks; $c.rel("/=", z, d, tol); }
            }
            let m = map1(&|p| p % k);
            $c.eq("matrix%scalar", x % ks, m);
            $c.eq("&matrix%scalar", &x % ks, m);
            { let mut z = x; z %= ks; $c.eq("%=", z, m); }
        }
        let h = map2(&|p, q| p * q);
        $c.eq("component_mul", x.component_mul(&y), h);
        { let mut z = x; z.component_mul_assign(&y); $c.eq("component_mul_assign", z, h); }
        let mut d = 0.0;
        for r in 0..$R { for q in 0..$C { d += a[r][q] * b[r][q]; } }
        $c.eq("dot", x.dot(&y), d);
        let yt: Matrix<$S, $C, $R> = lib(&model::tr(&b));
        $c.eq("tr_dot", x.tr_dot(&yt), d);
        $c.eq("zero + matrix", Matrix::<$S, $R, $C>::zero() + x, x);
        $c.eq("operands unchanged", (x, y), (model::cols(&a), model::cols(&b)));
    }};
}
macro_rules! shape_sections {
    ($ctx:ident, $S:ident, $div:expr; $(($R:literal, $C:literal))*) => {$(
      {
        #[inline(never)]
        fn step(c: &mut Case, a: model::M<$R, $C>, b: model::M<$R, $C>, v: [f64; $C], k: f64) {
            shape_ops!(c, $S, $R, $C, a, b, v, k, exact_div = $div);
        }
        $ctx.section(concat!("shape-", stringify!($S), "-", $R, "x", $C), |s| {
            let ks: &[f64] = &[2.0, -1.0, 4.0, 0.0, -8.0, 1.0];
            let mut n = 0usize;
            let mut one = |s: &mut Sec, a: model::M<$R, $C>, b: model::M<$R, $C>, v: [f64; $C]| {
                let k = ks[n % ks.len()];
                n += 1;
                s.case(|| format!("a = {a:?}, b = {b:?}, v = {v:?}, k = {k}"), |c| step(c, a, b, v, k));
            };
            for i in 0..$R * $C {
                for j in 0..$R * $C {
                    let mut v = [0.0; $C];
                    v[j % $C] = 5.0;
                    one(s, basis(i, 4.0), basis(j, -3.0), v);
                }
            }
            let m = $ctx.grade(8i64, 60, 150);
            for i in 0..m {
                for j in 0..m {
                    one(s, fill(i), fill(j + 1), grid::distinct::<$C>(i + j));
                }
            }
            if <$S as Elem>::of(0.5) != <$S as Elem>::of(0.0) {
                for (e, f, g) in [(40, 40, -20), (-40, -40, 30), (-25, -25, -25), (30, 30, 30)] {
                    for i in 0..$ctx.pick(2i64, 12) {
                        for k in [3.0, -2.0, 10.0] {
                            let (a, b, v) = (scaled(fill(i), e), scaled(fill(i + 2), f), grid::distinct::<$C>(i).map(|x| x * 2f64.powi(g)));
                            let k = k * 2f64.powi(g);
                            s.case(|| format!("a = {a:?}, b = {b:?}, v = {v:?}, k = {k}"), |c| step(c, a, b, v, k));
                        }
                    }
                }
            }
            let e = $R * $C + $C;
            if e <= $ctx.pick(8, 12) {
                for i in 0..grid::count(3, e) {
                    let t: [f64; 16] = grid::tuple(&[0.0, 1.0, -2.0], i);
                    let mut v = [0.0; $C];
                    v.copy_from_slice(&t[$R * $C..e]);
                    one(s, from_tuple(&t), fill((i % 7) as i64), v);
                }
            }
        });
      }
    )*};
}
/// Sums over more than four terms.
mod long {
    use super::*;
    pub fn run(ctx: &Ctx) {
        product_sections!(ctx, f64; (1,5,1)(2,5,3)(4,5,4)(3,6,2)(1,7,4)(4,8,1)(4,9,4));
        product_sections!(ctx, i32; (1,5,1)(2,6,3)(4,5,4));
        product_sections!(ctx, f32; (1,5,1)(3,5,2)(4,7,4));
        vectors::<f64, 2, 6>(ctx, "f64");
        vectors::<f64, 5, 5>(ctx, "f64");
        vectors::<f64, 6, 3>(ctx, "f64");
        vectors::<f64, 1, 9>(ctx, "f64");
        vectors::<f64, 7, 1>(ctx, "f64");
        vectors::<i32, 2, 6>(ctx, "i32");
        vectors::<i32, 5, 5>(ctx, "i32");
        vectors::<f32, 3, 5>(ctx, "f32");
        vectors::<f32, 6, 3>(ctx, "f32");
    }
    fn vectors<S: Elem, const R: usize, const C: usize>(ctx: &Ctx, name: &str) {
        ctx.section(&format!("matrix-vector-{name}-{R}x{C}"), |s| {
            let m = ctx.pick(6i64, 40);
            let mut one = |a: model::M<R, C>, v: [f64; C]| {
                s.case(|| format!("a = {a:?}, v = {v:?}"), |c| {
                    let x: Matrix<S, R, C> = lib(&a);
                    let y = Vector::<S, C>::from(v.map(S::of));
                    let w = model::mv(&a, &v);
                    forms2!(c, "matrix*vector", x * y, w);
                });
            };
            for i in 0..m {
                for j in 0..m {
                    one(fill(i), grid::distinct(j + 2));
                }
                for k in 0..C {
                    let mut v = [0.0; C];
                    v[k] = 3.0;
                    one(fill(i), v);
                }
            }
        });
    }
}
macro_rules! wide_shapes {
    ($ctx:ident, $S:ident, $div:expr; $(($R:literal, $C:literal))*) => {$({
        #[inline(never)]
        fn step(c: &mut Case, a: model::M<$R, $C>, b: model::M<$R, $C>, k: f64) {
            wide_ops!(c, $S, $R, $C, a, b, k, exact_div = $div);
        }
        $ctx.section(concat!("shape-", stringify!($S), "-", $R, "x", $C), |s| {
            let ks: &[f64] = &[2.0, -1.0, 4.0, 0.0, -8.0, 1.0];
            let m = $ctx.pick(4i64, 40);
            for i in 0..m { for j in 0..m {
                let (a, b, k) = (fill(i), fill(j + 1), ks[(i + j) as usize % ks.len()]);
                s.case(|| format!("a = {a:?}, b = {b:?}, k = {k}"), |c| step(c, a, b, k));
            } }
            for i in 0..$R * $C {
                let (a, b, k) = (basis(i, 4.0), fill(i as i64), ks[i % ks.len()]);
                s.case(|| format!("a = {a:?}, b = {b:?}, k = {k}"), |c| step(c, a, b, k));
            }
        });
    })*};
}
/// Square matrices: ring laws, identity, zero, interpolation.
macro_rules! laws {
    ($ctx:ident, $N:literal) => {
        $ctx.section(concat!("laws-", $N), |s| {
            let n = $ctx.pick(5i64, 11);
            for i in 0..n { for j in 0..n { for k in 0..n {
                s.case(|| format!("fills {i}, {j}, {k}"), |c| {
                    let (a, b, d) = (lib::<f64, $N, $N>(&fill(i)), lib::<f64, $N, $N>(&fill(j + 2)), lib::<f64, $N, $N>(&fill(k + 5)));
                    c.eq("associative", (a * b) * d, a * (b * d));
                    c.eq("left distributive", a * (b + d), a * b + a * d);
                    c.eq("right distributive", (a + b) * d, a * d + b * d);
                    let e = Matrix::<f64, $N, $N>::identity();
                    let z = Matrix::<f64, $N, $N>::zero();
                    c.eq("identity left", e * a, a);
                    c.eq("identity right", a * e, a);
                    c.eq("zero left", z * a, z);
                    c.eq("zero right", a * z, z);
                    c.eq("additive inverse", a + (-a), z);
                    let v = Vector::<f64, $N>::from(grid::distinct::<$N>(i + k));
                    c.eq("action", (a * b) * v, a * (b * v));
                    for t in [0.0, 1.0, 0.5, 0.25, -1.0, 2.0] {
                        let mut w = [[0.0; $N]; $N];
                        for q in 0..$N { for r in 0..$N { w[q][r] = a[q][r] * (1.0 - t) + b[q][r] * t; } }
                        c.close("lerp", a.lerp(&b, t), w, 1e-13);
                    }
                });
            } } }
        });
    };
}
/// Interpolation in every shape, square or not.
fn lerps<const R: usize, const C: usize>(ctx: &Ctx) {
    ctx.section(&format!("lerp-{R}x{C}"), |s| {
        let n = ctx.pick(6i64, 30);
        for i in 0..n {
            for j in 0..n {
                let (a, b): (model::M<R, C>, model::M<R, C>) = (fill(i), fill(j + 1));
                for t in [0.0, 1.0, 0.5, 0.25, -1.0, 2.0, 0.1, 0.999, 1e-6, 1.0 + 1e-6, 300.0] {
                    s.case(|| format!("a = {a:?}, b = {b:?}, amount = {t}"), |c| {
                        let mut w = a;
                        let mut size: f64 = 0.0;
                        for r in 0..R {
                            for q in 0..C {
                                w[r][q] = a[r][q] + (b[r][q] - a[r][q]) * t;
                                size = f64::max(size, f64::abs(a[r][q]) + f64::abs(b[r][q] - a[r][q]) * f64::abs(t) + f64::abs(b[r][q] * t));
                            }
                        }
                        let w = model::cols(&w);
                        let (x, y): (Matrix<f64, R, C>, Matrix<f64, R, C>) = (lib(&a), lib(&b));
                        c.scaled("lerp", x.lerp(&y, t), w, size, 2e-15);
                        let (x, y): (Matrix<f32, R, C>, Matrix<f32, R, C>) = (lib(&a), lib(&b));
                        c.scaled("f32 lerp", x.lerp(&y, t as f32), w, size, 1e-6);
                    });
                }
            }
        }
    });
}
macro_rules! scalars_left {
    ($ctx:ident, $($t:ident)*) => {$(
        $ctx.section(concat!("scalar-on-the-left-", stringify!($t)), |s| {
            for k in 0..=7u8 { for i in 0..8u8 {
                let a: [$t; 16] = std::array::from_fn(|j| ((j as u8 * 5 + i * 3) % 17) as $t);
                let k = k as $t;
                s.case(|| format!("{k:?} * {a:?}"), |c| {
                    macro_rules! n { ($r:literal, $q:literal, $m:literal) => {{
                        let mut b = [0 as $t; $m]; b.copy_from_slice(&a[..$m]);
                        let w = b.map(|u| u * k);
                        let x = Matrix::<$t, $r, $q>::from(b);
                        forms2!(c, "scalar*matrix", k * x, w);
                        c.eq("matrix*scalar", x * k, w);
                    }}; }
                    n!(1, 1, 1); n!(1, 2, 2); n!(2, 1, 2); n!(2, 2, 4); n!(2, 3, 6); n!(3, 2, 6); n!(3, 3, 9); n!(3, 4, 12); n!(4, 3, 12); n!(4, 4, 16); n!(1, 4, 4); n!(4, 2, 8);
                });
            } }
        });
    )*};
}

#[inline(never)]
fn any<const R: usize, const C: usize>(_: &model::M<R, C>, _: f64) -> bool {
    true
}
fn divisible<const R: usize, const C: usize>(a: &model::M<R, C>, k: f64) -> bool {
    a.iter().flatten().all(|x| x % k == 0.0)
}

mod f64_rows1 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        product_sections!(ctx, f64; (1,1,1)(1,1,2)(1,1,3)(1,1,4)(1,2,1)(1,2,2)(1,2,3)(1,2,4)(1,3,1)(1,3,2)(1,3,3)(1,3,4)(1,4,1)(1,4,2)(1,4,3)(1,4,4));
        shape_sections!(ctx, f64, any; (1,1)(1,2)(1,3)(1,4));
    }
}
mod f64_rows2 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        product_sections!(ctx, f64; (2,1,1)(2,1,2)(2,1,3)(2,1,4)(2,2,1)(2,2,2)(2,2,3)(2,2,4)(2,3,1)(2,3,2)(2,3,3)(2,3,4)(2,4,1)(2,4,2)(2,4,3)(2,4,4));
        shape_sections!(ctx, f64, any; (2,1)(2,2)(2,3)(2,4));
    }
}
mod f64_rows3 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        product_sections!(ctx, f64; (3,1,1)(3,1,2)(3,1,3)(3,1,4)(3,2,1)(3,2,2)(3,2,3)(3,2,4)(3,3,1)(3,3,2)(3,3,3)(3,3,4)(3,4,1)(3,4,2)(3,4,3)(3,4,4));
        shape_sections!(ctx, f64, any; (3,1)(3,2)(3,3)(3,4));
    }
}
mod f64_rows4 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        product_sections!(ctx, f64; (4,1,1)(4,1,2)(4,1,3)(4,1,4)(4,2,1)(4,2,2)(4,2,3)(4,2,4)(4,3,1)(4,3,2)(4,3,3)(4,3,4)(4,4,1)(4,4,2)(4,4,3)(4,4,4));
        shape_sections!(ctx, f64, any; (4,1)(4,2)(4,3)(4,4));
    }
}
mod i32_rows1 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        product_sections!(ctx, i32; (1,1,1)(1,1,2)(1,1,3)(1,1,4)(1,2,1)(1,2,2)(1,2,3)(1,2,4)(1,3,1)(1,3,2)(1,3,3)(1,3,4)(1,4,1)(1,4,2)(1,4,3)(1,4,4));
        shape_sections!(ctx, i32, divisible; (1,1)(1,2)(1,3)(1,4));
    }
}
mod i32_rows2 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        product_sections!(ctx, i32; (2,1,1)(2,1,2)(2,1,3)(2,1,4)(2,2,1)(2,2,2)(2,2,3)(2,2,4)(2,3,1)(2,3,2)(2,3,3)(2,3,4)(2,4,1)(2,4,2)(2,4,3)(2,4,4));
        shape_sections!(ctx, i32, divisible; (2,1)(2,2)(2,3)(2,4));
    }
}
mod i32_rows3 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        product_sections!(ctx, i32; (3,1,1)(3,1,2)(3,1,3)(3,1,4)(3,2,1)(3,2,2)(3,2,3)(3,2,4)(3,3,1)(3,3,2)(3,3,3)(3,3,4)(3,4,1)(3,4,2)(3,4,3)(3,4,4));
        shape_sections!(ctx, i32, divisible; (3,1)(3,2)(3,3)(3,4));
    }
}
mod i32_rows4 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        product_sections!(ctx, i32; (4,1,1)(4,1,2)(4,1,3)(4,1,4)(4,2,1)(4,2,2)(4,2,3)(4,2,4)(4,3,1)(4,3,2)(4,3,3)(4,3,4)(4,4,1)(4,4,2)(4,4,3)(4,4,4));
        shape_sections!(ctx, i32, divisible; (4,1)(4,2)(4,3)(4,4));
    }
}
mod f32_rows1 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        product_sections!(ctx, f32; (1,1,1)(1,1,2)(1,1,3)(1,1,4)(1,2,1)(1,2,2)(1,2,3)(1,2,4)(1,3,1)(1,3,2)(1,3,3)(1,3,4)(1,4,1)(1,4,2)(1,4,3)(1,4,4));
        shape_sections!(ctx, f32, any; (1,1)(1,2)(1,3)(1,4));
    }
}
mod f32_rows2 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        product_sections!(ctx, f32; (2,1,1)(2,1,2)(2,1,3)(2,1,4)(2,2,1)(2,2,2)(2,2,3)(2,2,4)(2,3,1)(2,3,2)(2,3,3)(2,3,4)(2,4,1)(2,4,2)(2,4,3)(2,4,4));
        shape_sections!(ctx, f32, any; (2,1)(2,2)(2,3)(2,4));
    }
}
mod f32_rows3 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        product_sections!(ctx, f32; (3,1,1)(3,1,2)(3,1,3)(3,1,4)(3,2,1)(3,2,2)(3,2,3)(3,2,4)(3,3,1)(3,3,2)(3,3,3)(3,3,4)(3,4,1)(3,4,2)(3,4,3)(3,4,4));
        shape_sections!(ctx, f32, any; (3,1)(3,2)(3,3)(3,4));
    }
}
mod f32_rows4 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        product_sections!(ctx, f32; (4,1,1)(4,1,2)(4,1,3)(4,1,4)(4,2,1)(4,2,2)(4,2,3)(4,2,4)(4,3,1)(4,3,2)(4,3,3)(4,3,4)(4,4,1)(4,4,2)(4,4,3)(4,4,4));
        shape_sections!(ctx, f32, any; (4,1)(4,2)(4,3)(4,4));
    }
}
#[cfg(feature = "deep")]
mod i64_rows1 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        shape_sections!(ctx, i64, divisible; (1,1)(1,2)(1,3)(1,4));
    }
}
#[cfg(feature = "deep")]
mod i64_rows2 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        shape_sections!(ctx, i64, divisible; (2,1)(2,2)(2,3)(2,4));
    }
}
#[cfg(feature = "deep")]
mod i64_rows3 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        shape_sections!(ctx, i64, divisible; (3,1)(3,2)(3,3)(3,4));
    }
}
#[cfg(feature = "deep")]
mod i64_rows4 {
    use super::*;
    pub fn run(ctx: &Ctx) {
        shape_sections!(ctx, i64, divisible; (4,1)(4,2)(4,3)(4,4));
    }
}
fn main() {
    let ctx = Ctx::start("C12");
    ctx.bound("products: all 64 shape triples up to 4 and 13 with an inner dimension of 5 to 9, every pair of one-entry (basis) matrices, all pairs of distinct-entry fills, and all matrices over {0, 1, -2} where the two factors have at most 8 (thorough 11) entries; value and reference forms; f64, f32 and i32 (i64 too in the thorough tier); fills rescaled by powers of two from 2^-50 to 2^50 on either side");
    ctx.bound("shape operations: all 16 shapes up to 4x4 and five beyond (the sums only), every pair of basis matrices, all pairs of fills, complete 3-letter grids for small shapes; all 14 scalar types on the left; ring laws on all triples of fills for sizes 1 to 4");
    ctx.assume("entries are small integers, so every order of summation gives the same exact result");
    f64_rows1::run(&ctx);
    f64_rows2::run(&ctx);
    f64_rows3::run(&ctx);
    f64_rows4::run(&ctx);
    i32_rows1::run(&ctx);
    i32_rows2::run(&ctx);
    i32_rows3::run(&ctx);
    i32_rows4::run(&ctx);
    f32_rows1::run(&ctx);
    f32_rows2::run(&ctx);
    f32_rows3::run(&ctx);
    f32_rows4::run(&ctx);
    #[cfg(feature = "deep")]
    {
        i64_rows1::run(&ctx);
        i64_rows2::run(&ctx);
        i64_rows3::run(&ctx);
        i64_rows4::run(&ctx);
    }
    rest::run(&ctx);
    long::run(&ctx);
    mixed::run(&ctx);
    lerps::<1, 2>(&ctx);
    lerps::<2, 1>(&ctx);
    lerps::<2, 3>(&ctx);
    lerps::<3, 2>(&ctx);
    lerps::<1, 4>(&ctx);
    lerps::<4, 3>(&ctx);
    lerps::<2, 4>(&ctx);
    lerps::<4, 4>(&ctx);
    lerps::<5, 2>(&ctx);
    lerps::<2, 6>(&ctx);
    lerps::<5, 5>(&ctx);
    ctx.bound("interpolation in eleven shapes up to 5x5 and 2x6 over eleven amounts");
    ctx.finish();
}
mod rest {
    use super::*;
    pub fn run(ctx: &Ctx) {
    laws!(ctx, 1);
    laws!(ctx, 2);
    laws!(ctx, 3);
    laws!(ctx, 4);
    scalars_left!(ctx, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
    macro_rules! wide { ($($S:ident $div:ident;)*) => {$(
        wide_shapes!(ctx, $S, $div; (5, 1) (1, 5) (5, 3) (2, 6) (5, 5));
    )*}; }
    wide!(f64 any; i32 divisible; f32 any;);
    // exact under power-of-two rescaling
    ctx.section("magnitudes", |s| {
        for e in [0i32, 30, -30, 200, -200, 400, -400] {
            for f in [0i32, 100, -100, 300, -300] {
                for i in 0..6 {
                    s.case(|| format!("2^{e} * fill {i} by 2^{f} * fill"), |c| {
                        let (p, q) = (2f64.powi(e), 2f64.powi(f));
                        let a = lib::<f64, 4, 4>(&fill(i));
                        let b = lib::<f64, 4, 4>(&fill(i + 1));
                        let w = a * b;
                        c.eq("product", (a * p) * (b * q), w * p * q);
                        c.eq("sum", a * p + b * p, (a + b) * p);
                        let v = Vector4::from(grid::distinct::<4>(i));
                        c.eq("action", (a * p) * (v * q), (a * v) * p * q);
                    });
                }
            }
        }
    });
    }
}

/// Entries of mixed sizes and matrices close to special ones (identity, zero, diagonal, each other):
/// sums and scalar products to the last bit, products to the rounding of the terms of each entry.
mod mixed {
    use super::*;
    const SIZES: [f64; 11] = [1.0 / 3.0, 1.0 + 1.0 / 262144.0, -0.999999, 1048577.0, 3.0 / 4194304.0, -7.0e12, 0.1, 1e-9, -0.7, 0.0, 2.5];
    fn sized<const R: usize, const C: usize>(seed: usize) -> model::M<R, C> {
        std::array::from_fn(|r| std::array::from_fn(|c| SIZES[(seed * 7 + r * (3 + seed) + c * (5 + 2 * seed)) % 11]))
    }
    fn eye<const R: usize, const C: usize>(a: f64, d: f64) -> model::M<R, C> {
        let f: model::M<R, C> = fill(3);
        std::array::from_fn(|r| std::array::from_fn(|c| if r == c { a } else { 0.0 } + d * f[r][c]))
    }
    fn family<const R: usize, const C: usize>(wide: usize) -> Vec<model::M<R, C>> {
        let mut v: Vec<model::M<R, C>> = (0..wide).map(sized).collect();
        for d in [0.0, 1e-3, -1e-6, 1e-9, -1e-12, 4e-16] {
            v.extend([eye(1.0, d), eye(0.0, d), eye(-1.0, d), eye(2.0, d)]);
            let (f, g): (model::M<R, C>, model::M<R, C>) = (fill(1), fill(4));
            v.push(std::array::from_fn(|r| std::array::from_fn(|c| f[r][c] + d * g[r][c])));
        }
        v
    }
    macro_rules! shapes {
        ($ctx:ident; $(($R:literal, $K:literal, $C:literal))*) => {$(
            {
                #[inline(never)]
                fn one(c: &mut Case, a: model::M<$R, $K>, a2: model::M<$R, $K>, b: model::M<$K, $C>, k: f64) {
                    let (x, x2, y) = (lib::<f64, $R, $K>(&a), lib::<f64, $R, $K>(&a2), lib::<f64, $K, $C>(&b));
                    let map2 = |f: &dyn Fn(f64, f64) -> f64| -> [[f64; $R]; $K] { std::array::from_fn(|q| std::array::from_fn(|r| f(a[r][q], a2[r][q]))) };
                    let sum = map2(&|p, q| p + q);
                    let dif = map2(&|p, q| p - q);
                    forms2!(c, "matrix+matrix", x + x2, sum);
                    forms2!(c, "matrix-matrix", x - x2, dif);
                    { let mut z = x; z += x2; c.eq("+=", z, sum); }
                    { let mut z = x; z += &x2; c.eq("+= &", z, sum); }
                    { let mut z = x; z -= x2; c.eq("-=", z, dif); }
                    { let mut z = x; z -= &x2; c.eq("-= &", z, dif); }
                    let neg = map2(&|p, _| -p);
                    c.eq("-matrix", -x, neg);
                    c.eq("-&matrix", -&x, neg);
                    { let mut z = x; z.neg_mut(); c.eq("neg_mut", z, neg); }
                    let sc = map2(&|p, _| p * k);
                    c.eq("matrix*scalar", x * k, sc);
                    c.eq("&matrix*scalar", &x * k, sc);
                    forms2!(c, "scalar*matrix", k * x, sc);
                    { let mut z = x; z *= k; c.eq("*=", z, sc); }
                    let rem = map2(&|p, _| p % k);
                    c.eq("matrix%scalar", x % k, rem);
                    c.eq("&matrix%scalar", &x % k, rem);
                    { let mut z = x; z %= k; c.eq("%=", z, rem); }
                    let h = map2(&|p, q| p * q);
                    c.eq("component_mul", x.component_mul(&x2), h);
                    { let mut z = x; z.component_mul_assign(&x2); c.eq("component_mul_assign", z, h); }
                    for (n, g) in [("matrix/scalar", x / k), ("&matrix/scalar", &x / k), ("/=", { let mut z = x; z /= k; z })] {
                        for q in 0..$K { for r in 0..$R { c.scaled(n, g[q][r], a[r][q] / k, (a[r][q] / k).abs(), 2e-15); } }
                    }
                    let (aa, bb) = (a.map(|r| r.map(f64::abs)), b.map(|r| r.map(f64::abs)));
                    let (w, size) = (model::mul(&a, &b), model::mul(&aa, &bb));
                    let xt: Matrix<f64, $K, $R> = lib(&model::tr(&a));
                    for (n, g) in [("matrix*matrix", x * y), ("matrix*&matrix", x * &y), ("&matrix*matrix", &x * y), ("&matrix*&matrix", &x * &y), ("tr_mul", xt.tr_mul(&y))] {
                        for q in 0..$C { for r in 0..$R { c.scaled(n, g[q][r], w[r][q], size[r][q], 2e-15); } }
                    }
                    for q in 0..$C {
                        let v = Vector::<f64, $K>::from(std::array::from_fn::<f64, $K, _>(|i| b[i][q]));
                        for (n, g) in [("matrix*vector", x * v), ("matrix*&vector", x * &v), ("&matrix*vector", &x * v), ("&matrix*&vector", &x * &v)] {
                            for r in 0..$R { c.scaled(n, g[r], w[r][q], size[r][q], 2e-15); }
                        }
                    }
                    let (mut d, mut ds) = (0.0f64, 0.0f64);
                    for r in 0..$R { for q in 0..$K { d += a[r][q] * a2[r][q]; ds += f64::abs(a[r][q] * a2[r][q]); } }
                    let xt2: Matrix<f64, $K, $R> = lib(&model::tr(&a2));
                    c.scaled("dot", x.dot(&x2), d, ds, 1e-14);
                    c.scaled("tr_dot", x.tr_dot(&xt2), d, ds, 1e-14);
                }
                let (fa, fb) = (family::<$R, $K>($ctx.pick(6, 11)), family::<$K, $C>($ctx.pick(6, 11)));
                $ctx.par(concat!("mixed-", $R, "x", $K, "-", $K, "x", $C), fa.len(), |i, s| {
                    for j in 0..fb.len() {
                        let k = [0.1, 1.000001, -0.999999, 3e-7, 1048577.0][(i + j) % 5];
                        s.case(|| format!("a = {:?}, b = {:?}, k = {k}", fa[i], fb[j]), |c| one(c, fa[i], fa[(i + j + 1) % fa.len()], fb[j], k));
                    }
                });
            }
        )*};
    }
    pub fn run(ctx: &Ctx) {
        ctx.bound("entries of mixed sizes (1e-9 .. 7e12, full mantissas) and matrices within 1e-3 .. 4e-16 of the identity, its multiples, zero and each other: all pairs, nine shape triples");
        shapes!(ctx; (1,1,1)(2,2,2)(3,3,3)(4,4,4)(2,3,4)(4,2,3)(3,4,1)(1,3,2)(4,5,2));
    }
}
