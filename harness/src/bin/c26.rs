//! C26: the rotation between two directions.
use cglinalg_core::*;
use cglinalg_transform::*;
use cglmc::*;

fn v3(a: &[f64; 3]) -> Vector3<f64> {
    Vector3::from(*a)
}
fn proper3(m: &model::M<3, 3>) -> f64 {
    let p = model::mul(m, &model::tr(m));
    let mut e = (model::det(m) - 1.0).abs();
    for (r, row) in p.iter().enumerate() {
        for (c, x) in row.iter().enumerate() {
            e = e.max((x - if r == c { 1.0 } else { 0.0 }).abs());
        }
    }
    if e.is_nan() || p.iter().flatten().any(|x| x.is_nan()) {
        f64::INFINITY
    } else {
        e
    }
}
fn cols3<S: Copy + Into<f64>>(m: Matrix3x3<S>) -> [[f64; 3]; 3] {
    let mut o = [[0.0; 3]; 3];
    for c in 0..3 {
        for r in 0..3 {
            o[c][r] = m[c][r].into();
        }
    }
    o
}

/// All the three-dimensional ways of building the rotation, as matrices.
macro_rules! all3 {
    ($t:ident, $a:expr, $b:expr) => {{
        let a = Vector3::<$t>::from($a.map(|x| x as $t));
        let b = Vector3::<$t>::from($b.map(|x| x as $t));
        let (ua, ub) = (Unit::from_value(a), Unit::from_value(b));
        let l: Vec<(&str, Option<[[f64; 3]; 3]>)> = vec![
            ("Matrix3x3::rotation_between", Matrix3x3::rotation_between(&a, &b).map(cols3)),
            ("Matrix3x3::rotation_between_axis", Matrix3x3::rotation_between_axis(&ua, &ub).map(cols3)),
            ("Quaternion::rotation_between", Quaternion::rotation_between(&a, &b).map(|q| cols3(q.to_matrix()))),
            ("Quaternion::rotation_between_axis", Quaternion::rotation_between_axis(&ua, &ub).map(|q| cols3(q.to_matrix()))),
            ("Rotation3::rotation_between", Rotation3::rotation_between(&a, &b).map(|r| cols3(r.to_matrix()))),
            ("Rotation3::rotation_between_axis", Rotation3::rotation_between_axis(&ua, &ub).map(|r| cols3(r.to_matrix()))),
            ("Isometry3::rotation_between", Isometry3::rotation_between(&a, &b).map(|i| cols3(i.rotation().to_matrix()))),
            ("Isometry3::rotation_between_axis", Isometry3::rotation_between_axis(&ua, &ub).map(|i| cols3(i.rotation().to_matrix()))),
        ];
        l
    }};
}

fn main() {
    let ctx = Ctx::start("C26");
    let full = ctx.thorough();
    let mut d3 = grid::directions3(full);
    if full {
        // general directions, whose lengths do not round nicely
        for i in 0..grid::count(5, 3) {
            let t: [f64; 3] = grid::tuple(&[0.1, 0.7, -0.3, 1.1, -0.9], i);
            d3.push(model::unit(&t));
        }
    }
    let lens = [1.0, 3.0, 0.7, 1048576.0, 1.0 / 1048576.0, 2f64.powi(100), 2f64.powi(-100)];
    // for single precision the extreme lengths are brought to 2^+-30
    let l32 = |x: f64| if x > 1e20 { 2f64.powi(-70) } else if x < 1e-20 { 2f64.powi(70) } else { 1.0 };
    ctx.bound(&format!("all ordered pairs of {} directions in space, each at unit length and at two of the lengths 1, 3, 0.7, 2^+-20, 2^+-100 (f32: 2^+-30); for every direction the pairs at angles 2^-k off equal and off opposite (k up to 26) about two axes, and the equal and opposite pairs themselves with all length combinations; all ordered pairs of directions in the plane at 5 (thorough 2) degree steps and beside the axes, with the turns just beside none, a quarter, a half and three quarters; f64 and f32", d3.len()));
    ctx.assume("pairs closer than 1e-5 to opposite are only required to give a proper rotation or none");
    ctx.par("space, all pairs", d3.len(), |i, s| {
        for (j, b) in d3.iter().enumerate() {
            let a = d3[i];
            let cr = model::cross(&a, b);
            let (sn, cs) = (model::norm(&cr), model::dot(&a, b));
            if sn < 1e-3 {
                continue; // below
            }
            let la = lens[(i + j) % 7];
            let lb = lens[(i * 3 + j * 2) % 7];
            for (la, lb) in [(1.0, 1.0), (la, lb)] {
                let (x, y) = (model::scale(&a, la), model::scale(b, lb));
                s.case(|| format!("{x:?} -> {y:?}"), |c| {
                    let want = model::rot3(&model::unit(&cr), sn.atan2(cs));
                    let tol = 1e-13 / sn.min(1.0);
                    for (n, r) in all3!(f64, x, y) {
                        c.close(n, r, Some(model::cols(&want)), tol);
                        if let Some(r) = r {
                            c.close("carries the first onto the second", model::mv(&model::from_cols(&r), &a), *b, tol);
                        }
                    }
                    for (n, r) in all3!(f32, x.map(|v| v * l32(la)), y.map(|v| v * l32(lb))) {
                        c.close(n, r, Some(model::cols(&want)), 4e-6 / sn.min(1.0));
                    }
                    // the wrappers that act on points
                    let iso = Isometry3::rotation_between(&v3(&x), &v3(&y)).unwrap();
                    c.close("Isometry3 apply_vector", iso.apply_vector(&v3(&a)), *b, tol);
                    c.eq("Isometry3 has no translation", iso.translation(), Vector3::<f64>::zero());
                    let q = Quaternion::rotation_between(&v3(&x), &v3(&y)).unwrap();
                    c.close("Quaternion has unit length", q.norm(), 1.0, 1e-13);
                });
            }
        }
    });
    ctx.par("space, nearly equal and nearly opposite", d3.len(), |i, s| {
        let a = d3[i];
        let helper = if a[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
        let n1 = model::unit(&model::cross(&a, &helper));
        let n2 = model::cross(&a, &n1);
        for k in 1..=26 {
            let e = 2.0_f64.powi(-k);
            for n in [n1, n2] {
                for opp in [false, true] {
                    let t = if opp { core::f64::consts::PI - e } else { e };
                    let b = model::mv(&model::rot3(&n, t), &a);
                    for l in [1.0, 3.0] {
                        let y = model::scale(&b, l);
                        s.case(|| format!("{a:?} -> {y:?} (angle {t})"), |c| {
                            let sn = t.sin();
                            let want = model::rot3(&n, t);
                            for (name, r) in all3!(f64, a, y) {
                                if opp && e < 1e-5 {
                                    if let Some(r) = r {
                                        let p = proper3(&model::from_cols(&r));
                                        c.truth_with(name, p < 1e-6, || format!("not a rotation: {r:?}"));
                                    }
                                } else {
                                    // the angle of a nearly parallel pair is known to about the square root of the precision
                                    c.close(name, r, Some(model::cols(&want)), (1e-13 / sn).max(if opp { 0.0 } else { 5e-8 }).max(1e-13));
                                }
                            }
                            for (name, r) in all3!(f32, a, y) {
                                if opp && e < 0.05 {
                                    if let Some(r) = r {
                                        let p = proper3(&model::from_cols(&r));
                                        c.truth_with(name, p < 1e-3, || format!("not a rotation: {r:?}"));
                                    }
                                } else {
                                    c.close(name, r, Some(model::cols(&want)), (1e-5 / sn).min(2e-3));
                                }
                            }
                        });
                    }
                }
            }
        }
    });
    ctx.par("space, equal and opposite", d3.len(), |i, s| {
        let a = d3[i];
        for la in lens {
            for lb in lens {
                let x = model::scale(&a, la);
                for sign in [1.0, -1.0] {
                    let y = model::scale(&a, sign * lb);
                    s.case(|| format!("{x:?} -> {y:?}"), |c| {
                        for (name, r) in all3!(f64, x, y) {
                            if sign > 0.0 {
                                c.close(name, r, Some(model::cols(&model::ident::<3>())), 1e-7);
                            } else if la == lb {
                                c.same(name, r.is_none(), true);
                            } else if let Some(r) = r {
                                let p = proper3(&model::from_cols(&r));
                                c.truth_with(name, p < 1e-6, || format!("not a rotation: {r:?}"));
                            }
                        }
                        for (name, r) in all3!(f32, x.map(|v| v * l32(la)), y.map(|v| v * l32(lb))) {
                            if sign > 0.0 {
                                c.close(name, r, Some(model::cols(&model::ident::<3>())), 2e-3);
                            } else if la == lb {
                                c.same(name, r.is_none(), true);
                            } else if let Some(r) = r {
                                let p = proper3(&model::from_cols(&r));
                                c.truth_with(name, p < 1e-3, || format!("not a rotation: {r:?}"));
                            }
                        }
                    });
                }
            }
        }
    });
    // the plane
    let step = ctx.grade(5, 2, 1);
    let n2 = (360 / step) as usize;
    let near: Vec<f64> = {
        let mut v = Vec::new();
        for k in 1..=40 {
            v.push(2.0_f64.powi(-k));
            v.push(-(2.0_f64.powi(-k)));
        }
        v.extend([0.0]);
        v
    };
    macro_rules! all2 {
        ($t:ident, $x:expr, $y:expr) => {{
            let x = Vector2::<$t>::from($x.map(|x| x as $t));
            let y = Vector2::<$t>::from($y.map(|x| x as $t));
            let (ux, uy) = (Unit::from_value(x), Unit::from_value(y));
            [
                ("Matrix2x2::rotation_between", Matrix2x2::rotation_between(&x, &y)),
                ("Matrix2x2::rotation_between_axis", Matrix2x2::rotation_between_axis(&ux, &uy)),
                ("Rotation2::rotation_between", Rotation2::rotation_between(&x, &y).to_matrix().clone()),
                ("Rotation2::rotation_between_axis", Rotation2::rotation_between_axis(&ux, &uy).to_matrix().clone()),
                ("Isometry2::rotation_between", Isometry2::rotation_between(&x, &y).rotation().to_matrix().clone()),
                ("Isometry2::rotation_between_axis", Isometry2::rotation_between_axis(&ux, &uy).rotation().to_matrix().clone()),
            ]
        }};
    }
    ctx.par("plane", n2 + 4 * near.len(), |i, s| {
        // every direction of the grid, and those just beside the four axes
        let al = if i < n2 { grid::deg((i as i32 * step) as f64) } else { core::f64::consts::FRAC_PI_2 * ((i - n2) % 4) as f64 + near[(i - n2) / 4] };
        let mut turns: Vec<f64> = (0..n2).map(|j| grid::deg((j as i32 * step) as f64)).collect();
        for e in &near {
            turns.push(*e);
            turns.push(core::f64::consts::PI + e);
            turns.push(core::f64::consts::FRAC_PI_2 + e);
            turns.push(-core::f64::consts::FRAC_PI_2 + e);
        }
        for (j, t) in turns.iter().enumerate() {
            let (la, lb) = (lens[(i + j) % 7], lens[(2 * i + j) % 7]);
            let x = [la * al.cos(), la * al.sin()];
            let y = [lb * (al + t).cos(), lb * (al + t).sin()];
            s.case(|| format!("{x:?} -> {y:?}"), |c| {
                let want = model::cols(&model::rot2(*t));
                for (name, m) in all2!(f64, x, y) {
                    c.close(name, m, want, 1e-13);
                }
                for (name, m) in all2!(f32, x.map(|v| v * l32(la)), y.map(|v| v * l32(lb))) {
                    c.close(name, m, want, 1e-6);
                }
                let iso = Isometry2::rotation_between(&Vector2::from(x), &Vector2::from(y));
                c.eq("Isometry2 has no translation", iso.translation(), Vector2::<f64>::zero());
            });
        }
    });
    ctx.section("zero vectors", |s| {
        for i in 0..9 {
            let t: [f64; 3] = grid::tuple(&[0.0, 1.0, -2.0], i);
            let w = [t[0], t[1], 0.5 * t[0]];
            let z = [0.0; 3];
            for (x, y) in [(z, w), (w, z)] {
                s.case(|| format!("{x:?} -> {y:?}"), |c| {
                    let id = model::cols(&model::ident::<3>());
                    c.eq("Matrix3x3", Matrix3x3::rotation_between(&v3(&x), &v3(&y)), Some(id));
                    c.eq("Quaternion", Quaternion::rotation_between(&v3(&x), &v3(&y)), Some([1.0, 0.0, 0.0, 0.0]));
                    c.eq("Rotation3", Rotation3::rotation_between(&v3(&x), &v3(&y)).map(|r| r.to_matrix().clone()), Some(id));
                    c.truth("Isometry3", Isometry3::rotation_between(&v3(&x), &v3(&y)).is_none());
                    let (p, q) = (Vector2::new(x[0], x[1]), Vector2::new(y[0], y[1]));
                    let id = model::cols(&model::ident::<2>());
                    c.eq("Matrix2x2", Matrix2x2::rotation_between(&p, &q), id);
                    c.eq("Rotation2", Rotation2::rotation_between(&p, &q).to_matrix().clone(), id);
                    c.eq("Isometry2", Isometry2::rotation_between(&p, &q).rotation().to_matrix().clone(), id);
                });
            }
        }
    });
    ctx.finish();
}
