//! C25: normalisation and unit wrappers.
use cglinalg_core::*;
use cglmc::*;
use core::fmt::Debug;
use core::ops::Neg;

/// Non-zero fills: all tuples over a small alphabet when there are few components; otherwise every
/// single component, every pair of components and whole fills with recognisable components.
fn fills<const K: usize>(deep: bool) -> Vec<[f64; K]> {
    let mut v: Vec<[f64; K]> = Vec::new();
    let alpha: &[f64] = if deep { &[0.0, 1.0, -2.0, 3.0, -4.0, 12.0] } else { &[0.0, 1.0, -2.0, 3.0, -4.0] };
    let alpha = if K > 4 { &[0.0, 1.0, -2.0] } else { alpha };
    if K <= if deep { 8 } else { 6 } {
        for i in 0..grid::count(alpha.len(), K) {
            v.push(grid::tuple(alpha, i));
        }
    } else {
        for i in 0..K {
            for a in [1.0, -2.0, 3.0] {
                let mut x = [0.0; K];
                x[i] = a;
                v.push(x);
                for j in 0..i {
                    for b in [4.0, -1.0] {
                        let mut y = x;
                        y[j] = b;
                        v.push(y);
                    }
                }
            }
        }
    }
    for s in 0..5 {
        v.push(grid::distinct::<K>(s));
    }
    v.retain(|x| x.iter().any(|y| *y != 0.0));
    v
}

macro_rules! family {
    ($fname:ident, $t:ident, $tol:expr, $maxexp:expr) => {
        #[allow(clippy::too_many_arguments)]
        fn $fname<T, const K: usize>(ctx: &Ctx, name: &str, make: fn([$t; K]) -> T)
        where
            T: Normed<Output = $t> + Flat + Clone + PartialEq + Debug,
            Unit<T>: Neg<Output = Unit<T>> + Clone + PartialEq + Debug,
            for<'a> &'a Unit<T>: Neg<Output = Unit<T>>,
        {
            let tol: f64 = $tol;
            let all = fills::<K>(ctx.thorough());
            let exps: Vec<i32> = if ctx.thorough() { vec![0, 1, -1, 20, -20, $maxexp / 2, -$maxexp / 2, $maxexp, -$maxexp] } else { vec![0, 3, -20, $maxexp, -$maxexp] };
            ctx.par(name, all.len(), |i, s| {
                let x = all[i];
                let n2 = model::dot(&x, &x);
                let n = n2.sqrt();
                let exact = n == n.floor() && n * n == n2;
                let u = model::scale(&x, 1.0 / n);
                for &e in &exps {
                    let p = 2.0_f64.powi(e);
                    s.case(|| format!("{x:?} * 2^{e}"), |c| {
                        let xs = x.map(|a| (a * p) as $t);
                        let v = make(xs);
                        c.close("norm", v.norm() as f64 / p, n, tol);
                        c.close("norm_squared", v.norm_squared() as f64 / p / p, n2, tol);
                        c.close("normalize", v.normalize(), u, tol);
                        let mut m = v.clone();
                        let r = m.normalize_mut();
                        c.close("normalize_mut", &m, u, tol);
                        c.close("normalize_mut reports the length", r as f64 / p, n, tol);
                        // scaling
                        for f in [2.0, -3.0, 0.5, 1.0] {
                            let w = x.map(|a| a * f);
                            let back = |v: &T| v.scale((1.0 / p) as $t);
                            let g = v.scale(f as $t);
                            c.eq("scale", back(&g), w);
                            let mut m = v.clone();
                            m.scale_mut(f as $t);
                            c.eq("scale_mut", back(&m), w);
                            let d = x.map(|a| a / f);
                            c.close("unscale", back(&v.unscale(f as $t)), d, tol);
                            let mut m = v.clone();
                            m.unscale_mut(f as $t);
                            c.close("unscale_mut", back(&m), d, tol);
                        }
                        // rescale to a requested length
                        for len in [1.0, 2.0, 5.0] {
                            c.close("normalize and scale", v.normalize().scale(len as $t), model::scale(&u, len), tol);
                        }
                        // thresholds around the length
                        let mut th = vec![(0.0, true), (0.5, true), (0.9999, true), (1.0001, false), (2.0, false), (16.0, false)];
                        if exact {
                            th.push((1.0, false));
                        }
                        for (f, some) in th {
                            let t = (n * f * p) as $t;
                            let op = format!("try_normalize, threshold {f} times the length");
                            let g = v.try_normalize(t);
                            c.same(&op, g.is_some(), some);
                            if let Some(g) = g {
                                c.close(&op, g, u, tol);
                            }
                            let mut m = v.clone();
                            let g = m.try_normalize_mut(t);
                            c.same("try_normalize_mut", g.is_some(), some);
                            if let Some(r) = g {
                                c.close("try_normalize_mut", &m, u, tol);
                                c.close("try_normalize_mut reports the length", r as f64 / p, n, tol);
                            } else {
                                c.truth("a refused value is untouched", m == v);
                            }
                            let g = Unit::try_from_value(v.clone(), t);
                            c.same("Unit::try_from_value", g.is_some(), some);
                            if let Some(g) = g {
                                c.close("Unit::try_from_value", g.into_inner(), u, tol);
                            }
                            let g = Unit::try_from_value_with_norm(v.clone(), t);
                            c.same("Unit::try_from_value_with_norm", g.is_some(), some);
                            if let Some((g, r)) = g {
                                c.close("Unit::try_from_value_with_norm", g.into_inner(), u, tol);
                                c.close("Unit::try_from_value_with_norm reports the length", r as f64 / p, n, tol);
                            }
                        }
                        let a = Unit::from_value(v.clone());
                        c.close("Unit::from_value", a.as_ref(), u, tol);
                        let (b, r) = Unit::from_value_with_norm(v.clone());
                        c.close("Unit::from_value_with_norm", b.as_ref(), u, tol);
                        c.close("Unit::from_value_with_norm reports the length", r as f64 / p, n, tol);
                        let inner: &T = &a;
                        c.truth("deref, as_ref and into_inner agree", inner == a.as_ref() && *inner == a.clone().into_inner());
                        c.truth("equality of unit values", (a == b) == (a.as_ref() == b.as_ref()));
                        let neg = u.map(|y| -y);
                        c.close("-unit", (-a.clone()).into_inner(), neg, tol);
                        c.close("-&unit", (-&a).into_inner(), neg, tol);
                        let tr = Unit::from_value_unchecked(v.clone());
                        c.truth("from_value_unchecked keeps the value", *tr.as_ref() == v && tr.into_inner() == v);
                    });
                }
            });
            ctx.section(&format!("{name} nearly of unit length"), |s| {
                for x in &all {
                    let n = model::norm(x);
                    let u = model::scale(x, 1.0 / n);
                    for k in [0.99, 1.01, 1.0 - 1e-4, 1.0 + 1e-4, 1.0 - 1e-6, 1.0 + 1e-6, 1.0 - 1e-9, 1.0 + 1e-9, 1.0 + 1e-12] {
                        s.case(|| format!("{k} * unit of {x:?}"), |c| {
                            let v = make(u.map(|a| (a * k) as $t));
                            c.close("norm", v.norm(), k, tol);
                            c.close("normalize", v.normalize(), u, tol);
                            let mut m = v.clone();
                            let r = m.normalize_mut();
                            c.close("normalize_mut", &m, u, tol);
                            c.close("normalize_mut reports the length", r, k, tol);
                            c.close("Unit::from_value", Unit::from_value(v.clone()).as_ref(), u, tol);
                            let (b, r) = Unit::from_value_with_norm(v.clone());
                            c.close("Unit::from_value_with_norm", b.as_ref(), u, tol);
                            c.close("Unit::from_value_with_norm reports the length", r, k, tol);
                            c.close("try_normalize", v.try_normalize(0.5).unwrap(), u, tol);
                            c.close("Unit::try_from_value", Unit::try_from_value(v.clone(), 0.5).unwrap().as_ref(), u, tol);
                            let mut m = v.clone();
                            let r = m.try_normalize_mut(0.5);
                            c.close("try_normalize_mut", &m, u, tol);
                            c.close("try_normalize_mut reports the length", r, Some(k), tol);
                        });
                    }
                }
            });
            ctx.section(&format!("{name} zero and distances"), |s| {
                for t in [0.0, 1e-20, 1.0] {
                    s.case(|| format!("zero, threshold {t}"), |c| {
                        let z = make([0.0; K]);
                        c.truth("try_normalize(zero) fails", z.try_normalize(t as $t).is_none());
                        let mut m = z.clone();
                        c.truth("try_normalize_mut(zero) fails", m.try_normalize_mut(t as $t).is_none());
                        c.truth("untouched", m == z);
                        c.truth("Unit::try_from_value(zero) fails", Unit::try_from_value(z.clone(), t as $t).is_none());
                        c.truth("Unit::try_from_value_with_norm(zero) fails", Unit::try_from_value_with_norm(z.clone(), t as $t).is_none());
                        c.eq("norm of zero", z.norm(), 0.0);
                    });
                }
                // a unit value stays one under every sequence of wrapper operations up to a depth
                let depth = if ctx.thorough() { 6 } else { 4 };
                for f in 0..2 {
                    let x = grid::distinct::<K>(f);
                    let u = model::unit(&x);
                    let mut level = vec![(Unit::from_value(make(x.map(|a| a as $t))), u, String::new())];
                    for _ in 0..depth {
                        let mut next = Vec::new();
                        for (w, m, h) in &level {
                            let minus = m.map(|y: f64| -y);
                            let mut to = |y: Unit<T>, m: [f64; K], op: &str| next.push((y, m, format!("{h} {op}")));
                            to(-w.clone(), minus, "-u");
                            to(-w, minus, "-&u");
                            to(Unit::from_value(w.clone().into_inner()), *m, "from_value");
                            to(Unit::from_value_with_norm(w.as_ref().clone()).0, *m, "from_value_with_norm");
                            to(Unit::from_value_unchecked(w.as_ref().clone()), *m, "unchecked");
                            if let Some(y) = Unit::try_from_value(w.as_ref().scale(3.0), 0.5) {
                                to(y, *m, "try_from_value");
                            }
                        }
                        for (w, m, h) in &next {
                            s.case(|| format!("{x:?}:{h}"), |c| {
                                c.close("wrapper history", w.as_ref(), *m, 8.0 * tol);
                                c.close("unit length", w.norm(), 1.0, 8.0 * tol);
                            });
                        }
                        s.search(next.len() as u64, next.len() as u64);
                        level = next;
                    }
                }
                let n = all.len();
                let m = if ctx.thorough() { 60 } else { 14 };
                for i in 0..n {
                    for j in 0..m {
                        let k = (i * 7 + j * (n / m + 1)) % n;
                        let (x, y) = (all[i], all[k]);
                        s.case(|| format!("{x:?} and {y:?}"), |c| {
                            let d = model::sub(&x, &y);
                            let (a, b) = (make(x.map(|z| z as $t)), make(y.map(|z| z as $t)));
                            c.eq("Normed::distance_squared", Normed::distance_squared(&a, &b), model::dot(&d, &d));
                            c.close("Normed::distance", Normed::distance(&a, &b), model::norm(&d), tol);
                        });
                    }
                }
            });
        }
    };
}
family!(double, f64, 1e-14, 480);
family!(single, f32, 4e-6, 50);

macro_rules! both {
    ($ctx:ident, $name:expr, $k:literal, |$x:ident| $e:expr) => {
        double::<_, $k>(&$ctx, &format!("{}<f64>", $name), |$x: [f64; $k]| $e);
        single::<_, $k>(&$ctx, &format!("{}<f32>", $name), |$x: [f32; $k]| $e);
    };
}
macro_rules! mats {
    ($ctx:ident, $($r:literal $c:literal $k:literal),*) => {$(
        both!($ctx, concat!("Matrix", stringify!($r), "x", stringify!($c)), $k, |x| {
            let mut m = Matrix::<_, $r, $c>::zero();
            for i in 0..$k { m[i / $r][i % $r] = x[i]; }
            m
        });
    )*};
}

fn main() {
    let ctx = Ctx::start("C25");
    ctx.bound("every type with up to 6 components (thorough 8): all tuples over 3 to 6 values; larger matrices: every single and every pair of non-zero components and whole fills; every value rescaled by powers of two from 2^-480 to 2^480 (f32: 2^-50 to 2^50); every value rescaled to nine lengths within 1e-2 .. 1e-12 of one; thresholds at 0, 1/2, 0.9999, 1, 1.0001, 2 and 16 times the length; unit wrapper histories up to depth 4 (thorough 6)");
    ctx.assume("a threshold equal to the length is asserted only where the length is exactly representable; negative thresholds are not asserted");
    both!(ctx, "Vector1", 1, |x| Vector1::from(x));
    both!(ctx, "Vector2", 2, |x| Vector2::from(x));
    both!(ctx, "Vector3", 3, |x| Vector3::from(x));
    both!(ctx, "Vector4", 4, |x| Vector4::from(x));
    both!(ctx, "Vector5", 5, |x| Vector::<_, 5>::from(x));
    both!(ctx, "Point1", 1, |x| Point1::from(x));
    both!(ctx, "Point2", 2, |x| Point2::from(x));
    both!(ctx, "Point3", 3, |x| Point3::from(x));
    both!(ctx, "Point4", 4, |x| Point::<_, 4>::from(x));
    both!(ctx, "Quaternion", 4, |x| Quaternion::new(x[0], x[1], x[2], x[3]));
    both!(ctx, "Complex", 2, |x| Complex::new(x[0], x[1]));
    mats!(ctx, 1 1 1, 1 2 2, 2 1 2, 2 2 4, 1 3 3, 3 1 3, 2 3 6, 3 2 6, 1 4 4, 2 4 8, 4 2 8, 3 3 9, 3 4 12, 4 3 12, 4 4 16, 5 2 10, 2 6 12, 5 5 25, 1 7 7);
    both!(ctx, "Vector7", 7, |x| Vector::<_, 7>::from(x));
    both!(ctx, "Point6", 6, |x| Point::<_, 6>::from(x));
    ctx.finish();
}
