//! The transformations whose dimension is free, outside two and three dimensions.
#![allow(dead_code)]
use cglmc::*;
use cglinalg_core::*;
use cglinalg_transform::*;

const T: f64 = 1e-13;

/// What a transformation of N dimensions does: a linear part on vectors, an offset on points.
struct Map<'a, const N: usize> {
    name: String,
    point: Box<dyn Fn([f64; N]) -> [f64; N] + 'a>,
    vector: Box<dyn Fn([f64; N]) -> [f64; N] + 'a>,
}
fn v<const N: usize>(a: [f64; N]) -> Vector<f64, N> {
    Vector::from(a)
}
fn p<const N: usize>(a: [f64; N]) -> Point<f64, N> {
    Point::from(a)
}
fn arr<const N: usize>(a: Vector<f64, N>) -> [f64; N] {
    std::array::from_fn(|i| a[i])
}
fn arp<const N: usize>(a: Point<f64, N>) -> [f64; N] {
    std::array::from_fn(|i| a[i])
}
/// Offsets with every component different.
fn offsets<const N: usize>(n: i64) -> Vec<[f64; N]> {
    (0..n).map(|i| grid::distinct::<N>(i).map(|x| x * 0.5)).chain((0..N).map(|k| std::array::from_fn(|i| if i == k { -3.0 } else { 0.0 }))).collect()
}
fn factors<const N: usize>(n: i64) -> Vec<[f64; N]> {
    (0..n).map(|i| std::array::from_fn(|k| [2.0, -0.5, 4.0, 1.0, -8.0, 0.25, 3.0][(k + i as usize * 2) % 7])).collect()
}
/// Unit vectors: the axes, and combinations of two axes.
fn units<const N: usize>() -> Vec<[f64; N]> {
    let mut r = Vec::new();
    for a in 0..N {
        let mut e = [0.0; N];
        e[a] = 1.0;
        r.push(e);
        for b in 0..a {
            let mut e = [0.0; N];
            e[a] = 0.6;
            e[b] = -0.8;
            r.push(e);
        }
    }
    let q = (N as f64).sqrt();
    r.push([1.0 / q; N]);
    r
}
fn dirs_perp<const N: usize>(n: &[f64; N]) -> Vec<[f64; N]> {
    units::<N>().into_iter().filter(|d| model::dot(d, n).abs() < 1e-15).collect()
}
fn each<const N: usize>(ctx: &Ctx, f: &mut dyn FnMut(Map<N>, Map<N>, [f64; N])) {
    let probes = offsets::<N>(ctx.pick(3, 10));
    for x in &probes {
        for t in offsets::<N>(ctx.pick(4, 12)) {
            let k = Translation::from_vector(&v(t));
            let m = Map { name: format!("translation {t:?}"), point: Box::new(move |x| arp(k.apply_point(&p(x)))), vector: Box::new(move |x| arr(k.apply_vector(&v(x)))) };
            let w = Map { name: String::new(), point: Box::new(move |x| model::add(&x, &t)), vector: Box::new(move |x| x) };
            f(m, w, *x);
            for r in [1.0, 2.0, -0.5] {
                let (i, s) = (Isometry::from_parts(&k, &Rotation::identity()), Similarity::from_parts(&k, &Rotation::identity(), r));
                if r == 1.0 {
                    let m = Map { name: format!("isometry with translation {t:?}"), point: Box::new(move |x| arp(i.apply_point(&p(x)))), vector: Box::new(move |x| arr(i.apply_vector(&v(x)))) };
                    let w = Map { name: String::new(), point: Box::new(move |x| model::add(&x, &t)), vector: Box::new(move |x| x) };
                    f(m, w, *x);
                }
                let m = Map { name: format!("similarity with scale {r}, translation {t:?}"), point: Box::new(move |x| arp(s.apply_point(&p(x)))), vector: Box::new(move |x| arr(s.apply_vector(&v(x)))) };
                let w = Map { name: String::new(), point: Box::new(move |x| model::add(&model::scale(&x, r), &t)), vector: Box::new(move |x| model::scale(&x, r)) };
                f(m, w, *x);
            }
        }
        for q in factors::<N>(ctx.pick(4, 7)) {
            let k = Scale::from_nonuniform_scale(&v(q));
            let m = Map { name: format!("scale {q:?}"), point: Box::new(move |x| arp(k.apply_point(&p(x)))), vector: Box::new(move |x| arr(k.apply_vector(&v(x)))) };
            let h = move |x: [f64; N]| std::array::from_fn(|i| x[i] * q[i]);
            f(m, Map { name: String::new(), point: Box::new(h), vector: Box::new(h) }, *x);
        }
        for n in units::<N>() {
            for b in offsets::<N>(2) {
                let k = Reflection::from_normal_bias(&Unit::from_value_unchecked(v(n)), &p(b));
                let m = Map { name: format!("reflection with normal {n:?}, bias {b:?}"), point: Box::new(move |x| arp(k.apply_point(&p(x)))), vector: Box::new(move |x| arr(k.apply_vector(&v(x)))) };
                let w = Map {
                    name: String::new(),
                    point: Box::new(move |x| model::sub(&x, &model::scale(&n, 2.0 * model::dot(&n, &model::sub(&x, &b))))),
                    vector: Box::new(move |x| model::sub(&x, &model::scale(&n, 2.0 * model::dot(&n, &x)))),
                };
                f(m, w, *x);
            }
            for d in dirs_perp(&n) {
                for z in [2.0, -0.5] {
                    for o in [[0.0; N], offsets::<N>(2)[1]] {
                        let k = Shear::from_affine_shear(z, &p(o), &Unit::from_value_unchecked(v(d)), &Unit::from_value_unchecked(v(n)));
                        // the vector action is asserted for a plane through the origin only
                        let through = o == [0.0; N];
                        let m = Map {
                            name: format!("shear by {z} along {d:?}, normal {n:?}, origin {o:?}"),
                            point: Box::new(move |x| arp(k.apply_point(&p(x)))),
                            vector: Box::new(move |x| if through { arr(k.apply_vector(&v(x))) } else { x }),
                        };
                        let w = Map {
                            name: String::new(),
                            point: Box::new(move |x| model::add(&x, &model::scale(&d, z * model::dot(&n, &model::sub(&x, &o))))),
                            vector: Box::new(move |x| if through { model::add(&x, &model::scale(&d, z * model::dot(&n, &x))) } else { x }),
                        };
                        f(m, w, *x);
                    }
                }
            }
        }
    }
}
/// Each transformation moves points and vectors as its parts say, and gives its parts back.
pub fn application<const N: usize>(ctx: &Ctx) {
    ctx.section(&format!("{N} dimensions"), |s| {
        each::<N>(ctx, &mut |m, w, x| {
            s.case(|| format!("{} on {x:?}", m.name), |c| {
                c.close("apply_point", (m.point)(x), (w.point)(x), T);
                c.close("apply_vector", (m.vector)(x), (w.vector)(x), T);
            });
        });
        for t in offsets::<N>(ctx.pick(4, 12)) {
            s.case(|| format!("parts {t:?}"), |c| {
                let k = Translation::from_vector(&v(t));
                c.eq("translation vector", (k.to_vector(), *k.vector()), (t, t));
                c.eq("between points", Translation::between_points(&p(t), &p([1.0; N])).to_vector(), t.map(|x| 1.0 - x));
                c.eq("between vectors", Translation::between_vectors(&v(t), &v([1.0; N])).to_vector(), t.map(|x| 1.0 - x));
                let q = Scale::from_nonuniform_scale(&v(t));
                c.eq("scale factors", q.to_vector(), t);
                c.eq("scale matrix", q.to_matrix() * v([1.0; N]), t);
                c.eq("uniform scale", Scale::<f64, N>::from_scale(t[0]).to_vector(), [t[0]; N]);
                let i = Isometry::from_parts(&k, &Rotation::identity());
                c.eq("isometry translation", i.translation().to_vector(), t);
                c.eq("isometry rotation", i.rotation().to_matrix() * v(t), t);
                c.eq("from_translation", Isometry::from_translation(&k).apply_point(&p([1.0; N])), t.map(|x| x + 1.0));
                c.eq("from_rotation", Isometry::from_rotation(&Rotation::identity()).apply_point(&p(t)), t);
                let m = Similarity::from_parts(&k, &Rotation::identity(), 3.0);
                c.eq("similarity parts", (m.translation().to_vector(), m.scale()), (t, 3.0));
                c.eq("from_isometry", Similarity::from_isometry(&i).apply_point(&p([1.0; N])), t.map(|x| x + 1.0));
                c.eq("similarity from_translation", Similarity::from_translation(&k).apply_point(&p([1.0; N])), t.map(|x| x + 1.0));
                c.eq("similarity from_scale", Similarity::<f64, N>::from_scale(-2.0).apply_point(&p(t)), t.map(|x| x * -2.0));
                c.eq("similarity from_rotation", Similarity::from_rotation(&Rotation::identity()).apply_point(&p(t)), t);
                for n in units::<N>() {
                    let r = Reflection::from_normal_bias(&Unit::from_value_unchecked(v(n)), &p(t));
                    c.eq("reflection parts", (r.normal(), r.bias()), (n, t));
                    for d in dirs_perp(&n) {
                        let h = Shear::from_affine_shear(2.5, &p(t), &Unit::from_value_unchecked(v(d)), &Unit::from_value_unchecked(v(n)));
                        c.eq("shear parts", (h.shear_factor(), h.origin(), h.direction(), h.normal()), (2.5, t, d, n));
                    }
                }
                c.eq("identities", Translation::<f64, N>::identity() * p(t), t);
                c.eq("identities", Scale::<f64, N>::identity() * p(t), t);
                c.eq("identities", Rotation::<f64, N>::identity() * p(t), t);
                c.eq("identities", Isometry::<f64, N>::identity() * p(t), t);
                c.eq("identities", Similarity::<f64, N>::identity() * p(t), t);
            });
        }
    });
}
macro_rules! back {
    ($c:ident, $k:expr, $x:expr, $t:expr) => {{
        let (k, x) = ($k, $x);
        let i = k.inverse();
        $c.close("inverse of the image", i.apply_point(&k.apply_point(&p(x))), x, $t);
        $c.close("image of the inverse", k.apply_point(&i.apply_point(&p(x))), x, $t);
        $c.close("inverse of the image of a vector", i.apply_vector(&k.apply_vector(&v(x))), x, $t);
        $c.close("inverse_apply_point", k.inverse_apply_point(&k.apply_point(&p(x))), x, $t);
        $c.close("inverse_apply_point and the inverse", k.inverse_apply_point(&p(x)), i.apply_point(&p(x)), $t);
        $c.close("inverse_apply_vector", k.inverse_apply_vector(&k.apply_vector(&v(x))), x, $t);
        $c.close("inverse_apply_vector and the inverse", k.inverse_apply_vector(&v(x)), i.apply_vector(&v(x)), $t);
    }};
}
/// Inverses, likewise.
pub fn inverses<const N: usize>(ctx: &Ctx) {
    ctx.section(&format!("{N} dimensions"), |s| {
        for x in offsets::<N>(ctx.pick(3, 10)) {
            for t in offsets::<N>(ctx.pick(4, 12)) {
                s.case(|| format!("translation {t:?} on {x:?}"), |c| {
                    let k = Translation::from_vector(&v(t));
                    back!(c, k, x, T);
                    { let mut z = k; z.inverse_mut(); c.eq("inverse_mut", z.to_vector(), t.map(|x| -x)); }
                    let i = Isometry::from_parts(&k, &Rotation::identity());
                    back!(c, i, x, T);
                    { let mut z = i; z.inverse_mut(); c.close("inverse_mut", z.apply_point(&p(x)), model::sub(&x, &t), T); }
                    for r in [2.0, -0.5] {
                        let m = Similarity::from_parts(&k, &Rotation::identity(), r);
                        back!(c, m, x, T);
                        { let mut z = m; z.inverse_mut(); c.close("inverse_mut", z.apply_point(&p(x)), model::scale(&model::sub(&x, &t), 1.0 / r), T); }
                    }
                });
            }
            for q in factors::<N>(ctx.pick(4, 7)) {
                s.case(|| format!("scale {q:?} on {x:?}"), |c| back!(c, Scale::from_nonuniform_scale(&v(q)), x, T));
            }
            for n in units::<N>() {
                for b in offsets::<N>(2) {
                    s.case(|| format!("normal {n:?}, bias {b:?} on {x:?}"), |c| {
                        back!(c, Reflection::from_normal_bias(&Unit::from_value_unchecked(v(n)), &p(b)), x, T);
                        for d in dirs_perp(&n) {
                            for z in [2.0, -0.5] {
                                let u = |a: [f64; N]| Unit::from_value_unchecked(v(a));
                                back!(c, Shear::from_shear(z, &u(d), &u(n)), x, T);
                                let k = Shear::from_affine_shear(z, &p(b), &u(d), &u(n));
                                c.close("inverse of the image", k.inverse().apply_point(&k.apply_point(&p(x))), x, T);
                                c.close("inverse_apply_point", k.inverse_apply_point(&k.apply_point(&p(x))), x, T);
                            }
                        }
                    });
                }
            }
        }
    });
}
macro_rules! prod {
    ($c:ident, $x:ident, $what:literal, $k:expr, $l:expr) => {{
        let (k, l) = ($k, $l);
        let w = arp(k.apply_point(&l.apply_point(&p($x))));
        let u = arr(k.apply_vector(&l.apply_vector(&v($x))));
        for q in [k * l, &k * l, k * &l, &k * &l] {
            $c.close($what, q * p($x), w, T);
            $c.close($what, &q * &p($x), w, T);
            $c.close($what, q * v($x), u, T);
            $c.close($what, &q * &v($x), u, T);
        }
    }};
}
/// Products of two of a kind and the mixed ones, likewise.
macro_rules! products {
    ($($f:ident $n:literal)*) => {$(pub fn $f(ctx: &Ctx) {
    const N: usize = $n;
    ctx.section(&format!("{N} dimensions"), |s| {
        for x in offsets::<N>(ctx.pick(3, 10)) {
            for (a, b) in offsets::<N>(ctx.pick(4, 12)).into_iter().zip(offsets::<N>(14).into_iter().skip(2)) {
                s.case(|| format!("{a:?} after {b:?} on {x:?}"), |c| {
                    let (ta, tb) = (Translation::from_vector(&v(a)), Translation::from_vector(&v(b)));
                    let (sa, sb) = (Scale::from_nonuniform_scale(&v(a)), Scale::from_nonuniform_scale(&v(b)));
                    let r = Rotation::<f64, N>::identity();
                    let (ia, ib) = (Isometry::from_parts(&ta, &r), Isometry::from_parts(&tb, &r));
                    let (ma, mb) = (Similarity::from_parts(&ta, &r, 2.0), Similarity::from_parts(&tb, &r, -0.5));
                    prod!(c, x, "translations", ta, tb);
                    prod!(c, x, "scales", sa, sb);
                    prod!(c, x, "rotations", r, r);
                    prod!(c, x, "isometries", ia, ib);
                    prod!(c, x, "similarities", ma, mb);
                    prod!(c, x, "isometry and translation", ia, tb);
                    prod!(c, x, "translation and isometry", ta, ib);
                    prod!(c, x, "isometry and rotation", ia, r);
                    prod!(c, x, "rotation and isometry", r, ib);
                    prod!(c, x, "similarity and isometry", ma, ib);
                });
            }
        }
    });
    })*};
}
products!(products1 1 products4 4);
