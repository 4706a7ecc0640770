//! C29: matrices, conversions, parts and constructors of transformations.
use cglmc::*;
#[path = "../other.rs"]
mod other;
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
use std::f64::consts::PI;

macro_rules! common {
    ($f:ident, $m:ident, $label:literal, $tol:expr) => {
        /// What every kind shares: matrix, conversions, general transform; the parts of each kind.
        fn $f(ctx: &Ctx) {
            use cglmc::xf::$m::*;
            let deep = ctx.thorough();
            let menu = Entry::menu(deep);
            let pr = probes(deep);
            let tol: f64 = $tol;
            ctx.bound(&format!(concat!($label, ": {} transformations of 8 kinds on {} points and vectors each"), menu.len(), pr.len()));
            ctx.par(concat!($label, " members"), menu.len(), |i, s| {
                let e = &menu[i];
                s.case(|| e.name.clone(), |c| {
                    let want = model::cols(&e.m);
                    let m = e.k.matrix();
                    c.close("homogeneous matrix", m, want, tol);
                    for x in e.k.matrix_from() {
                        c.close("matrix by From", x, want, tol);
                        c.close("matrix by From and by method", x, m, tol);
                    }
                    let g = e.k.to_transform();
                    c.close("to_transform", g.to_matrix(), want, tol);
                    c.close("to_transform and the matrix", g.to_matrix(), m, tol);
                    c.eq("matrix of the transform", g.matrix(), g.to_matrix());
                    c.eq("as_ref of the transform", AsRef::<Matrix<S, P, P>>::as_ref(&g), g.to_matrix());
                    let mut h = g.clone();
                    h.matrix_mut()[0][0] += 2.0;
                    let mut w = g.to_matrix();
                    w[0][0] += 2.0;
                    c.eq("matrix_mut", h.to_matrix(), w);
                    for p in &pr {
                        let (x, v) = (pt(p), ve(p));
                        let a = xf::apply(&e.m, p, 1.0);
                        c.close("apply_point", e.k.point(&x), a, tol);
                        c.close("point through the transform", g.apply_point(&x), a, tol);
                        let hp = m * x.to_homogeneous();
                        let mut hw = [1.0; P];
                        hw[..N].copy_from_slice(&a);
                        c.close("point through the matrix", hp, hw, tol);
                        c.close("back from homogeneous coordinates", Pt::from_homogeneous(&hp), Some(a), tol);
                        let b = xf::apply(&e.m, p, 0.0);
                        c.close("vector through the transform", g.apply_vector(&v), b, tol);
                        let mut hw = [0.0; P];
                        hw[..N].copy_from_slice(&b);
                        c.close("vector through the matrix", m * v.to_homogeneous(), hw, tol);
                        if e.vec {
                            c.close("apply_vector", e.k.vector(&v), b, tol);
                        }
                    }
                    let t = e.parts.t;
                    match &e.k {
                        K::T(x) => {
                            c.eq("vector", x.vector(), t);
                            c.eq("to_vector", x.to_vector(), t);
                            c.eq("as_ref", AsRef::<Ve>::as_ref(x), t);
                        }
                        K::S(x) => {
                            c.eq("to_vector", x.to_vector(), core::array::from_fn::<f64, N, _>(|i| e.m[i][i]));
                            c.eq("to_matrix", x.to_matrix(), model::cols(&e.parts.lin.unwrap()));
                        }
                        K::R(x) => {
                            let l = model::cols(&e.parts.lin.unwrap());
                            c.close("matrix", x.matrix(), l, tol);
                            c.close("to_matrix", x.to_matrix(), l, tol);
                            c.close("as_ref", AsRef::<Matrix<S, N, N>>::as_ref(x), l, tol);
                        }
                        K::I(x) => {
                            c.eq("translation", x.translation().vector(), t);
                            c.close("rotation", x.rotation().matrix(), model::cols(&e.parts.lin.unwrap()), tol);
                        }
                        K::M(x) => {
                            c.eq("translation", x.translation().vector(), t);
                            c.close("rotation", x.rotation().matrix(), model::cols(&e.parts.lin.unwrap()), tol);
                            c.rel("scale", x.scale(), e.parts.scale, if tol < 1e-8 { 1e-15 } else { 1e-6 });
                        }
                        _ => {}
                    }
                });
            });
            // parts and points with components of very different sizes: every component to the size of its own terms
            let mixed = Entry::mixed();
            let mp = Entry::mixed_probes();
            let fine = if tol < 1e-8 { 1e-14 } else { 5e-6 };
            ctx.bound(&format!(concat!($label, ": {} transformations with parts of mixed sizes (2^-32 .. 2^30 and beside 1) on {} points and vectors of mixed sizes"), mixed.len(), mp.len()));
            ctx.par(concat!($label, " mixed sizes"), mixed.len(), |i, s| {
                let x = &mixed[i];
                s.case(|| x.e.name.clone(), |c| {
                    let k = &x.e.k;
                    let m = k.matrix();
                    let f = k.matrix_from();
                    let t = k.to_transform();
                    for r in 0..=N {
                        for q in 0..=N {
                            c.scaled("entry of the matrix", m[q][r], x.e.m[r][q], x.b[r][q], fine);
                            c.scaled("entry of the converted matrix", [f[0][q][r], f[1][q][r]], [x.e.m[r][q]; 2], x.b[r][q], fine);
                        }
                    }
                    for (j, p) in mp.iter().enumerate() {
                        if !deep && (i + j) % 3 != 0 {
                            continue;
                        }
                        let a = p.map(f64::abs);
                        let (w, z) = (xf::apply(&x.e.m, p, 1.0), xf::apply(&x.b, &a, 1.0));
                        let (wv, zv) = (xf::apply(&x.e.m, p, 0.0), xf::apply(&x.b, &a, 0.0));
                        let g = [k.point(&pt(p)), k.star_point(&pt(p))[j % 4], t.apply_point(&pt(p))];
                        let gv = [k.vector(&ve(p)), k.star_vector(&ve(p))[j % 4]];
                        let tv = t.apply_vector(&ve(p));
                        for q in 0..N {
                            c.scaled("component of apply_point (method, operator, general transform)", [g[0][q], g[1][q], g[2][q]], [w[q]; 3], z[q], fine);
                            c.scaled("component of the general transform's apply_vector", tv[q], wv[q], zv[q], fine);
                            if x.e.vec {
                                c.scaled("component of apply_vector (method, operator)", [gv[0][q], gv[1][q]], [wv[q]; 2], zv[q], fine);
                            }
                        }
                    }
                });
            });
            // the same maps in other units of length, and with outputs rescaled
            let zo: &[(i32, i32)] = if tol < 1e-8 { &[(40, 0), (-40, 0), (0, 30), (0, -30), (-30, 20), (25, -25), (0, -60), (0, 60), (-70, 0), (70, 0)] } else { &[(20, 0), (-20, 0), (0, 12), (0, -12), (-12, 8), (0, -28), (0, 28), (-30, 0), (30, 0)] };
            ctx.bound(&format!(concat!($label, ": the menu with lengths rescaled by 2^z and outputs by 2^o, (z, o) in {:?}"), zo));
            let few: Vec<A> = pr.iter().step_by(ctx.pick(4, 1)).copied().collect();
            for &(ze, oe) in zo {
                let (z, o) = (2f64.powi(ze), 2f64.powi(oe));
                let at = Entry::menu_at(deep, z, o);
                ctx.par(&format!(concat!($label, " members at 2^{} 2^{}"), ze, oe), menu.len(), |i, s| {
                    let (e, q) = (&menu[i], &at[i]);
                    s.case(|| q.name.clone(), |c| {
                        let t = tol * e.m.iter().flatten().fold(1.0_f64, |a, b| a.max(b.abs()));
                        let ou = q.k.out(o);
                        let want = model::cols(&e.m);
                        c.close("homogeneous matrix", q.k.matrix_at(z, ou), want, t);
                        for x in q.k.matrix_from() {
                            c.close("matrix by From and by method", x, q.k.matrix(), tol);
                        }
                        let g = q.k.to_transform();
                        c.close("to_transform and the matrix", g.to_matrix(), q.k.matrix(), tol);
                        let u = z * ou;
                        for p in &few {
                            let pz = p.map(|x| x * z);
                            let w = xf::apply(&e.m, p, 1.0).map(|x| x * u);
                            c.scaled("apply_point", q.k.point(&pt(&pz)), w, u, t);
                            c.scaled("point through the transform", g.apply_point(&pt(&pz)), w, u, t);
                            let w = xf::apply(&e.m, p, 0.0).map(|x| x * u);
                            c.scaled("vector through the transform", g.apply_vector(&ve(&pz)), w, u, t);
                            if q.vec {
                                c.scaled("apply_vector", q.k.vector(&ve(&pz)), w, u, t);
                            }
                        }
                        match &q.k {
                            K::I(x) => {
                                c.eq("translation", x.translation().vector(), q.parts.t);
                                c.close("rotation", x.rotation().matrix(), model::cols(&q.parts.lin.unwrap()), tol);
                            }
                            K::M(x) => {
                                c.eq("translation", x.translation().vector(), q.parts.t);
                                c.close("rotation", x.rotation().matrix(), model::cols(&q.parts.lin.unwrap()), tol);
                                c.rel("scale", x.scale(), q.parts.scale, if tol < 1e-8 { 1e-15 } else { 1e-6 });
                            }
                            _ => {}
                        }
                    });
                });
            }
            // transforms that are not affine
            let proj = projective();
            ctx.bound(&format!(concat!($label, ": {} projective general transforms"), proj.len()));
            ctx.par(concat!($label, " projective"), proj.len(), |i, s| {
                let (n, t, m) = &proj[i];
                s.case(|| n.clone(), |c| {
                    c.eq("to_matrix", t.to_matrix(), model::cols(m));
                    for p in &pr {
                        if let Some(q) = project(m, p) {
                            c.close("apply_point", t.apply_point(&pt(p)), q, tol * 512.0);
                            c.close("back from homogeneous coordinates", Pt::from_homogeneous(&(t.to_matrix() * pt(p).to_homogeneous())), Some(q), tol * 512.0);
                            for g in K::G(t.clone()).star_point(&pt(p)) {
                                c.close("transform * point", g, q, tol * 512.0);
                            }
                        }
                        c.close("apply_vector", t.apply_vector(&ve(p)), xf::apply(m, p, 0.0), tol * 64.0);
                    }
                });
            });
        }
    };
}
common!(com_d3, d3, "3d f64", 1e-12);
common!(com_d2, d2, "2d f64", 1e-12);
common!(com_s3, s3, "3d f32", 1e-5);
common!(com_s2, s2, "2d f32", 1e-5);

/// The angle in [0, pi] and the axis it turns about, for an angle of any size about `u`.
fn turn(u: &[f64; 3], a: f64) -> (f64, [f64; 3]) {
    let r = (a.sin()).atan2(a.cos());
    if r < 0.0 {
        (-r, model::scale(u, -1.0))
    } else {
        (r, *u)
    }
}
fn between(a: f64, b: f64) -> f64 {
    let d = a - b;
    d.sin().atan2(d.cos()).abs()
}

macro_rules! floats {
    ($f:ident, $t:ident, $label:literal, $tol:expr) => {
        fn $f(ctx: &Ctx) {
            let tol: f64 = $tol;
            let alpha: &[f64] = ctx.pick(&[0.0, 1.0, -2.0, 0.5][..], &[0.0, 1.0, -2.0, 0.5, 7.0, -0.125][..]);
            let v3: Vec<[f64; 3]> = (0..grid::count(alpha.len(), 3)).map(|i| grid::tuple(alpha, i)).collect();
            let v2: Vec<[f64; 2]> = (0..grid::count(alpha.len(), 2)).map(|i| grid::tuple(alpha, i)).collect();
            let p3 = |a: &[f64; 3]| Point3::<$t>::from(a.map(|x| x as $t));
            let w3 = |a: &[f64; 3]| Vector3::<$t>::from(a.map(|x| x as $t));
            let p2 = |a: &[f64; 2]| Point2::<$t>::from(a.map(|x| x as $t));
            let w2 = |a: &[f64; 2]| Vector2::<$t>::from(a.map(|x| x as $t));
            ctx.bound(&format!(concat!($label, ": all vectors over {:?} as translations, scales and (in pairs) end points"), alpha));
            ctx.par(concat!($label, " translations and scales"), v3.len(), |i, s| {
                let a = &v3[i];
                s.case(|| format!("{a:?}"), |c| {
                    let t = Translation3::new(a[0] as $t, a[1] as $t, a[2] as $t);
                    c.eq("Translation3::new", t.vector(), *a);
                    c.truth("new and from_vector", t == Translation3::from_vector(&w3(a)));
                    let sc = Scale3::new(a[0] as $t, a[1] as $t, a[2] as $t);
                    c.eq("Scale3::new", sc.to_vector(), *a);
                    c.truth("new and from_nonuniform_scale", sc == Scale3::from_nonuniform_scale(&w3(a)));
                    c.eq("Scale3::from_scale", Scale3::from_scale(a[0] as $t).to_vector(), [a[0]; 3]);
                    let mut d = [[0.0; 3]; 3];
                    for k in 0..3 {
                        d[k][k] = a[k];
                    }
                    c.eq("Scale3::to_matrix", sc.to_matrix(), d);
                    let b = [a[0], a[1]];
                    let t = Translation2::new(b[0] as $t, b[1] as $t);
                    c.eq("Translation2::new", t.vector(), b);
                    c.truth("new and from_vector in the plane", t == Translation2::from_vector(&w2(&b)));
                    let sc = Scale2::new(b[0] as $t, b[1] as $t);
                    c.eq("Scale2::new", sc.to_vector(), b);
                    c.truth("new and from_nonuniform_scale in the plane", sc == Scale2::from_nonuniform_scale(&w2(&b)));
                    c.eq("Scale2::from_scale", Scale2::from_scale(a[2] as $t).to_vector(), [a[2]; 2]);
                    c.eq("Scale2::to_matrix", sc.to_matrix(), [[b[0], 0.0], [0.0, b[1]]]);
                    for e in &v3 {
                        let d = model::sub(e, a);
                        let t = Translation3::between_points(&p3(a), &p3(e));
                        c.eq("between_points", t.vector(), d);
                        c.eq("between_points moves the first to the second", t.apply_point(&p3(a)), *e);
                        c.eq("between_vectors", Translation3::between_vectors(&w3(a), &w3(e)).vector(), d);
                        let (f, d2) = ([e[0], e[1]], [d[0], d[1]]);
                        let t = Translation2::between_points(&p2(&b), &p2(&f));
                        c.eq("between_points in the plane", t.vector(), d2);
                        c.eq("between_vectors in the plane", Translation2::between_vectors(&w2(&b), &w2(&f)).vector(), d2);
                    }
                });
            });

            // rotations about axes: angle, axis, quaternion and every constructor of the same rotation
            let mut dirs = grid::directions3(ctx.thorough());
            for h in [3e-3, 2e-5, 1e-7] { for k in 0..3 { for (x, y, z) in [(1.0, h, 0.0), (-1.0, h, -2.0 * h), (1.0, 1.0 + h, h), (1.0, -1.0, h)] {
                let mut v = [0.0; 3];
                v[k] = x;
                v[(k + 1) % 3] = y;
                v[(k + 2) % 3] = z;
                dirs.push(model::unit(&v));
            } } }
            let step = ctx.grade(15, 3, 1);
            let mut angles = grid::angles(step, -360, 720);
            for k in 1..=(if $t::DIGITS > 10 { 12 } else { 5 }) {
                let e = 10f64.powi(-k);
                angles.extend([e, -e, PI - e, -PI + e, PI / 2.0 - e, PI / 2.0 + e, 2.0 * PI - e, PI / 6.0 + e, PI / 6.0 - e, PI / 3.0 + e, 2.0 * PI / 3.0 - e, -5.0 * PI / 6.0 + e]);
            }
            ctx.bound(&format!(concat!($label, ": rotations about {} axes by {} angles (a grid over three turns and approaches to 0, 30, 60, 90, 120, 150, 180 and 360 degrees; axes also beside the coordinate axes and diagonals)"), dirs.len(), angles.len()));
            let ts = [[0.0; 3], [1.0, -2.0, 3.0]];
            ctx.par(concat!($label, " rotations"), dirs.len(), |i, s| {
                let u = &dirs[i];
                let ax = Unit::from_value(w3(u));
                for &a in &angles {
                    s.case(|| format!("{a} rad about {u:?}"), |c| {
                        let rad = Radians(a as $t);
                        let a = (a as $t) as f64;
                        let deg = Degrees(rad.0.to_degrees());
                        let l = model::rot3(u, a);
                        let want = model::cols(&l);
                        let r = Rotation3::from_axis_angle(&ax, rad);
                        c.close("from_axis_angle", r.matrix(), want, tol);
                        c.close("from_axis_angle in degrees", Rotation3::from_axis_angle(&ax, deg).matrix(), want, tol * 10.0);
                        let (th, n) = turn(u, a);
                        let got = r.angle();
                        c.truth_with("the angle is a number in [0, pi]", got.0 >= 0.0 && got.0 as f64 <= PI + 1e-6, || format!("{got:?}"));
                        c.close("angle", got.0, th, tol);
                        if th.sin() > (if $t::DIGITS > 10 { 5e-13 } else { 5e-6 }) {
                            // the entries are of the order of one
                            let it = 10.0 * tol + 64.0 * $t::EPSILON as f64 / th.sin();
                            c.close("axis", r.axis().map(|x| x.into_inner()), Some(n), it);
                            c.close("axis_angle", r.axis_angle().map(|(x, y)| (x.into_inner(), y.0)), Some((n, th)), it);
                            let (x, y) = r.axis_angle().unwrap();
                            c.close("the rotation rebuilt from its axis and angle", Rotation3::from_axis_angle(&x, y).matrix(), want, it);
                        }
                        if a == 0.0 {
                            c.truth("no axis for the identity", r.axis().is_none() && r.axis_angle().is_none());
                        }
                        for q in [Quaternion::from(r), Quaternion::from(&r)] {
                            let z: [f64; 4] = [q.scalar() as f64, q.vector()[0] as f64, q.vector()[1] as f64, q.vector()[2] as f64];
                            c.close("matrix of the quaternion of the rotation", model::cols(&model::qmat(&z)), want, tol * 10.0);
                        }
                        let q = Quaternion::from_axis_angle(&ax, rad);
                        c.close("from_quaternion", Rotation3::from_quaternion(&q).matrix(), want, tol);
                        c.close("From<Quaternion>", Rotation3::from(q).matrix(), want, tol);
                        c.close("From<&Quaternion>", Rotation3::from(&q).matrix(), want, tol);
                        for t in &ts {
                            let h = model::cols(&model::affine3(&l, t));
                            let i = Isometry3::from_axis_angle_translation(&ax, rad, &w3(t));
                            c.close("Isometry3::from_axis_angle_translation", i.to_affine_matrix(), h, tol);
                            c.eq("its translation", i.translation().vector(), *t);
                            c.close("its rotation", i.rotation().matrix(), want, tol);
                            c.close("the same in degrees", Isometry3::from_axis_angle_translation(&ax, deg, &w3(t)).to_affine_matrix(), h, tol * 10.0);
                            let tt = Translation3::from_vector(&w3(t));
                            c.close("Similarity3::from_isometry", Similarity3::from_isometry(&i).to_affine_matrix(), h, tol);
                            c.close("Isometry3::from_parts", Isometry3::from_parts(&tt, &r).to_affine_matrix(), h, tol);
                            let hs = model::cols(&model::affine3(&l.map(|x| x.map(|y| y * 2.5)), t));
                            c.close("Similarity3::from_parts", Similarity3::from_parts(&tt, &r, 2.5).to_affine_matrix(), hs, tol);
                            let ht = model::cols(&model::affine3(&model::ident::<3>(), t));
                            c.eq("Isometry3::from_translation", Isometry3::from_translation(&tt).to_affine_matrix(), ht);
                            c.eq("Similarity3::from_translation", Similarity3::from_translation(&tt).to_affine_matrix(), ht);
                        }
                        let h = model::cols(&model::affine3(&l, &[0.0; 3]));
                        c.close("Isometry3::from_axis_angle", Isometry3::from_axis_angle(&ax, rad).to_affine_matrix(), h, tol);
                        c.close("Isometry3::from_rotation", Isometry3::from_rotation(&r).to_affine_matrix(), h, tol);
                        let m = Similarity3::from_axis_angle(&ax, rad);
                        c.close("Similarity3::from_axis_angle", m.to_affine_matrix(), h, tol);
                        c.eq("its scale", m.scale(), 1.0);
                        c.close("Similarity3::from_axis_angle in degrees", Similarity3::from_axis_angle(&ax, deg).to_affine_matrix(), h, tol * 10.0);
                        let m = Similarity3::from_rotation(&r);
                        c.close("Similarity3::from_rotation", m.to_affine_matrix(), h, tol);
                        c.eq("its scale", m.scale(), 1.0);
                    });
                }
            });
            ctx.section(concat!($label, " axis constructors"), |s| {
                for &a in &angles {
                    s.case(|| format!("{a} rad"), |c| {
                        let rad = Radians(a as $t);
                        let deg = Degrees(rad.0.to_degrees());
                        let a = (a as $t) as f64;
                        let l: [_; 3] = core::array::from_fn(|k| {
                            let mut u = [0.0; 3];
                            u[k] = 1.0;
                            model::rot3(&u, a)
                        });
                        for (k, (r, i)) in [(Rotation3::from_angle_x(rad), Isometry3::from_angle_x(rad)), (Rotation3::from_angle_y(rad), Isometry3::from_angle_y(rad)), (Rotation3::from_angle_z(rad), Isometry3::from_angle_z(rad))].iter().enumerate() {
                            c.close("Rotation3 about an axis", r.matrix(), model::cols(&l[k]), tol);
                            c.close("Isometry3 about an axis", i.to_affine_matrix(), model::cols(&model::affine3(&l[k], &[0.0; 3])), tol);
                        }
                        for (k, (r, i)) in [(Rotation3::from_angle_x(deg), Isometry3::from_angle_x(deg)), (Rotation3::from_angle_y(deg), Isometry3::from_angle_y(deg)), (Rotation3::from_angle_z(deg), Isometry3::from_angle_z(deg))].iter().enumerate() {
                            c.close("Rotation3 about an axis in degrees", r.matrix(), model::cols(&l[k]), tol * 10.0);
                            c.close("Isometry3 about an axis in degrees", i.to_affine_matrix(), model::cols(&model::affine3(&l[k], &[0.0; 3])), tol * 10.0);
                        }
                        // the plane
                        let l = model::rot2(a);
                        let want = model::cols(&l);
                        let r = Rotation2::from_angle(rad);
                        c.close("Rotation2::from_angle", r.matrix(), want, tol);
                        c.close("Rotation2::from_angle in degrees", Rotation2::from_angle(deg).matrix(), want, tol * 10.0);
                        let got = r.angle();
                        c.truth_with("Rotation2::angle up to whole turns", between(got.0 as f64, a) <= tol * 10.0, || format!("{got:?}"));
                        c.truth_with("Rotation2::angle within half a turn", (got.0 as f64).abs() <= PI + 1e-6, || format!("{got:?}"));
                        let h0 = model::cols(&model::affine2(&l, &[0.0; 2]));
                        c.close("Isometry2::from_angle", Isometry2::from_angle(rad).to_affine_matrix(), h0, tol);
                        c.close("Isometry2::from_angle in degrees", Isometry2::from_angle(deg).to_affine_matrix(), h0, tol * 10.0);
                        c.close("Isometry2::from_rotation", Isometry2::from_rotation(&r).to_affine_matrix(), h0, tol);
                        c.close("Similarity2::from_angle", Similarity2::from_angle(rad).to_affine_matrix(), h0, tol);
                        c.eq("its scale", Similarity2::from_angle(rad).scale(), 1.0);
                        c.close("Similarity2::from_rotation", Similarity2::from_rotation(&r).to_affine_matrix(), h0, tol);
                        for t in [[0.0; 2], [1.0, -2.0], [-3.0, 0.5]] {
                            let h = model::cols(&model::affine2(&l, &t));
                            let i = Isometry2::from_angle_translation(rad, &w2(&t));
                            c.close("Isometry2::from_angle_translation", i.to_affine_matrix(), h, tol);
                            c.eq("its translation", i.translation().vector(), t);
                            c.close("its rotation", i.rotation().matrix(), want, tol);
                            let tt = Translation2::from_vector(&w2(&t));
                            c.close("Isometry2::from_parts", Isometry2::from_parts(&tt, &r).to_affine_matrix(), h, tol);
                            c.close("Similarity2::from_isometry", Similarity2::from_isometry(&i).to_affine_matrix(), h, tol);
                            let hs = model::cols(&model::affine2(&l.map(|x| x.map(|y| y * -0.5)), &t));
                            c.close("Similarity2::from_parts", Similarity2::from_parts(&tt, &r, -0.5).to_affine_matrix(), hs, tol);
                            let ht = model::cols(&model::affine2(&model::ident::<2>(), &t));
                            c.eq("Isometry2::from_translation", Isometry2::from_translation(&tt).to_affine_matrix(), ht);
                            c.eq("Similarity2::from_translation", Similarity2::from_translation(&tt).to_affine_matrix(), ht);
                        }
                        let k = a * 2.0 + 0.5;
                        let sc = Similarity3::from_scale(k as $t);
                        c.eq("Similarity3::from_scale", sc.scale(), k as $t);
                        c.eq("Similarity3::from_scale on a point", sc.apply_point(&p3(&[1.0, -2.0, 4.0])), [k as $t, -2.0 * k as $t, 4.0 * k as $t]);
                        let sc = Similarity2::from_scale(k as $t);
                        c.eq("Similarity2::from_scale", sc.scale(), k as $t);
                        c.eq("Similarity2::from_scale on a point", sc.apply_point(&p2(&[1.0, -2.0])), [k as $t, -2.0 * k as $t]);
                    });
                }
            });
            // products of rotations: the angle read back stays a number
            let some: Vec<[f64; 3]> = dirs.iter().step_by(ctx.pick(5, 3)).copied().collect();
            let degs: Vec<f64> = (0..360).step_by(ctx.grade(30, 12, 6)).map(|x| x as f64).collect();
            ctx.bound(&format!(concat!($label, ": the angle of every product of two rotations about {} axes by {} angles, and of each with its inverse"), some.len(), degs.len()));
            ctx.par(concat!($label, " angles of products"), some.len() * degs.len(), |i, s| {
                let (u, a) = (&some[i / degs.len()], degs[i % degs.len()].to_radians());
                let ra = Rotation3::from_axis_angle(&Unit::from_value(w3(u)), Radians(a as $t));
                for v in &some {
                    for b in &degs {
                        let b = b.to_radians();
                        s.case(|| format!("{a} about {u:?} after {b} about {v:?}"), |c| {
                            let rb = Rotation3::from_axis_angle(&Unit::from_value(w3(v)), Radians(b as $t));
                            for (r, m) in [(ra * rb, model::mul(&model::rot3(u, a), &model::rot3(v, b))), (ra * rb * (ra * rb).inverse(), model::ident::<3>())] {
                                let w = [m[2][1] - m[1][2], m[0][2] - m[2][0], m[1][0] - m[0][1]];
                                let th = model::norm(&w).atan2(m[0][0] + m[1][1] + m[2][2] - 1.0);
                                c.close("angle of the product", r.angle().0, th, tol * 10.0);
                            }
                        });
                    }
                }
            });

            // reflections and shears: parts
            let bias: Vec<[f64; 3]> = v3.iter().step_by(5).copied().collect();
            ctx.bound(&format!(concat!($label, ": reflections and shears with {} normals, {} points and all shear factors of the list"), dirs.len(), bias.len()));
            ctx.par(concat!($label, " reflections and shears"), dirs.len(), |i, s| {
                let n = &dirs[i];
                let un = Unit::from_value(w3(n));
                for (j, b) in bias.iter().enumerate() {
                    s.case(|| format!("normal {n:?} point {b:?}"), |c| {
                        let r = Reflection3::from_normal_bias(&un, &p3(b));
                        c.close("reflection normal", r.normal(), *n, tol);
                        c.eq("reflection bias", r.bias(), *b);
                        // a point of the mirror stays
                        c.close("the bias point is fixed", r.apply_point(&p3(b)), *b, tol);
                        let d = {
                            let x = [n[1], n[2], n[0]];
                            let y = model::cross(n, &x);
                            if model::norm(&y) < 0.1 { model::unit(&model::cross(n, &[n[1], -n[0], n[2]])) } else { model::unit(&y) }
                        };
                        let ud = Unit::from_value(w3(&d));
                        let f = [0.0, 1.0, -2.0, 3.5, 0.25][j % 5];
                        let h = Shear3::from_affine_shear(f as $t, &p3(b), &ud, &un);
                        c.eq("shear factor", h.shear_factor(), f);
                        c.eq("shear origin", h.origin(), *b);
                        c.close("shear direction", h.direction(), d, tol);
                        c.close("shear normal", h.normal(), *n, tol);
                        let g = Shear3::from_shear(f as $t, &ud, &un);
                        c.eq("from_shear factor", g.shear_factor(), f);
                        c.eq("from_shear origin", g.origin(), [0.0; 3]);
                        c.close("from_shear direction", g.direction(), d, tol);
                        c.close("from_shear normal", g.normal(), *n, tol);
                        let mut l = model::ident::<3>();
                        for y in 0..3 {
                            for x in 0..3 {
                                l[y][x] += f * d[y] * n[x];
                            }
                        }
                        c.close("from_shear matrix", g.to_affine_matrix(), model::cols(&model::affine3(&l, &[0.0; 3])), tol);
                    });
                }
            });
            ctx.section(concat!($label, " plane reflections and shears"), |s| {
                for n in grid::directions2(ctx.thorough()) {
                    for (j, b) in v2.iter().enumerate() {
                        s.case(|| format!("normal {n:?} point {b:?}"), |c| {
                            let un = Unit::from_value(w2(&n));
                            let r = Reflection2::from_normal_bias(&un, &p2(b));
                            c.close("reflection normal", r.normal(), n, tol);
                            c.eq("reflection bias", r.bias(), *b);
                            c.close("the bias point is fixed", r.apply_point(&p2(b)), *b, tol);
                            let d = [-n[1], n[0]];
                            let ud = Unit::from_value(w2(&d));
                            let f = [0.0, 1.0, -2.0, 3.5, 0.25][j % 5];
                            let h = Shear2::from_affine_shear(f as $t, &p2(b), &ud, &un);
                            c.eq("shear factor", h.shear_factor(), f);
                            c.eq("shear origin", h.origin(), *b);
                            c.close("shear direction", h.direction(), d, tol);
                            c.close("shear normal", h.normal(), n, tol);
                            let g = Shear2::from_shear(f as $t, &ud, &un);
                            c.eq("from_shear origin", g.origin(), [0.0; 2]);
                            c.close("from_shear parts", (g.shear_factor(), g.direction(), g.normal()), (f, d, n), tol);
                            let mut l = model::ident::<2>();
                            for y in 0..2 {
                                for x in 0..2 {
                                    l[y][x] += f * d[y] * n[x];
                                }
                            }
                            c.close("from_shear matrix", g.to_affine_matrix(), model::cols(&model::affine2(&l, &[0.0; 2])), tol);
                        });
                    }
                }
            });
            ctx.section(concat!($label, " coordinate shears"), |s| {
                for f in [0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 1024.0] {
                    s.case(|| format!("factor {f}"), |c| {
                        let k = f as $t;
                        let all = [(Shear3::from_shear_xy(k), 0, 1), (Shear3::from_shear_xz(k), 0, 2), (Shear3::from_shear_yx(k), 1, 0), (Shear3::from_shear_yz(k), 1, 2), (Shear3::from_shear_zx(k), 2, 0), (Shear3::from_shear_zy(k), 2, 1)];
                        for (h, d, n) in all {
                            let mut l = model::ident::<3>();
                            l[d][n] = f;
                            let what = format!("shear of coordinate {d} by coordinate {n}");
                            c.eq(&what, h.to_affine_matrix(), model::cols(&model::affine3(&l, &[0.0; 3])));
                            let (mut e, mut g) = ([0.0; 3], [0.0; 3]);
                            e[d] = 1.0;
                            g[n] = 1.0;
                            c.eq(&what, (h.shear_factor(), h.direction(), h.normal(), h.origin()), (f, e, g, [0.0; 3]));
                            let p = [5.0, -7.0, 3.0];
                            c.eq(&what, h.apply_point(&p3(&p)), model::mv(&l, &p));
                            c.eq(&what, h.apply_vector(&w3(&p)), model::mv(&l, &p));
                        }
                        for (h, d, n) in [(Shear2::from_shear_xy(k), 0, 1), (Shear2::from_shear_yx(k), 1, 0)] {
                            let mut l = model::ident::<2>();
                            l[d][n] = f;
                            let what = format!("plane shear of coordinate {d} by coordinate {n}");
                            c.eq(&what, h.to_affine_matrix(), model::cols(&model::affine2(&l, &[0.0; 2])));
                            let p = [5.0, -7.0];
                            c.eq(&what, h.apply_point(&p2(&p)), model::mv(&l, &p));
                            c.eq(&what, h.apply_vector(&w2(&p)), model::mv(&l, &p));
                        }
                    });
                }
            });
        }
    };
}
floats!(fl_64, f64, "f64", 1e-12);
floats!(fl_32, f32, "f32", 2e-5);

/// Integer scalars: the exact kinds.
macro_rules! ints {
    ($f:ident, $t:ident, $signed:tt) => {
        fn $f(ctx: &Ctx) {
            ctx.section(concat!(stringify!($t), " translations, scales and shears"), |s| {
                let alpha: &[i64] = &[0, 1, 3, 5];
                for i in 0..64 {
                    let a: [i64; 3] = grid::tuple(alpha, i);
                    s.case(|| format!("{a:?}"), |c| {
                        let b = a.map(|x| x as $t);
                        let v = Vector3::from(b);
                        let p = Point3::new(7 as $t, 4 as $t, 9 as $t);
                        let q = [7 + a[0], 4 + a[1], 9 + a[2]];
                        let t = Translation3::from_vector(&v);
                        c.eq("translated", t.apply_point(&p), q);
                        c.eq("vector", t.vector(), a);
                        c.eq("new", Translation3::new(b[0], b[1], b[2]).to_vector(), a);
                        c.eq("matrix", t.to_affine_matrix(), [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [a[0], a[1], a[2], 1]]);
                        c.eq("vector unmoved", t.apply_vector(&v), a);
                        c.eq("composition", (t * t).vector(), a.map(|x| 2 * x));
                        let k = Scale3::from_nonuniform_scale(&v);
                        c.eq("scaled point", k.apply_point(&p), [7 * a[0], 4 * a[1], 9 * a[2]]);
                        c.eq("scaled vector", k.apply_vector(&v), a.map(|x| x * x));
                        c.eq("scale matrix", k.to_affine_matrix(), [[a[0], 0, 0, 0], [0, a[1], 0, 0], [0, 0, a[2], 0], [0, 0, 0, 1]]);
                        c.eq("scale matrix without translation", k.to_matrix(), [[a[0], 0, 0], [0, a[1], 0], [0, 0, a[2]]]);
                        let v = Vector2::new(b[0], b[1]);
                        let p = Point2::new(7 as $t, 4 as $t);
                        let t = Translation2::from_vector(&v);
                        c.eq("translated in the plane", t.apply_point(&p), [q[0], q[1]]);
                        c.eq("matrix in the plane", t.to_affine_matrix(), [[1, 0, 0], [0, 1, 0], [a[0], a[1], 1]]);
                        let k = Scale2::from_nonuniform_scale(&v);
                        c.eq("scaled in the plane", k.apply_point(&p), [7 * a[0], 4 * a[1]]);
                        c.eq("scale matrix in the plane", k.to_affine_matrix(), [[a[0], 0, 0], [0, a[1], 0], [0, 0, 1]]);
                        ints!(@$signed c, a, $t);
                    });
                }
            });
        }
    };
    (@yes $c:ident, $a:ident, $t:ident) => {
        let (f, p) = ($a[0] as $t, Point3::new(2 as $t, -5, $a[1] as $t));
        let z = $a[1];
        $c.eq("xy", Shear3::from_shear_xy(f).apply_point(&p), [2 - 5 * $a[0], -5, z]);
        $c.eq("xz", Shear3::from_shear_xz(f).apply_point(&p), [2 + z * $a[0], -5, z]);
        $c.eq("yx", Shear3::from_shear_yx(f).apply_point(&p), [2, -5 + 2 * $a[0], z]);
        $c.eq("yz", Shear3::from_shear_yz(f).apply_point(&p), [2, -5 + z * $a[0], z]);
        $c.eq("zx", Shear3::from_shear_zx(f).apply_point(&p), [2, -5, z + 2 * $a[0]]);
        $c.eq("zy", Shear3::from_shear_zy(f).apply_point(&p), [2, -5, z - 5 * $a[0]]);
        $c.eq("plane xy", Shear2::from_shear_xy(f).apply_point(&Point2::new(2, -5)), [2 - 5 * $a[0], -5]);
        $c.eq("plane yx", Shear2::from_shear_yx(f).apply_point(&Point2::new(2, -5)), [2, -5 + 2 * $a[0]]);
        $c.eq("undone", Shear3::from_shear_zy(f).inverse_apply_point(&p), [2, -5, z + 5 * $a[0]]);
    };
    (@no $c:ident, $a:ident, $t:ident) => {};
}
ints!(in_i32, i32, yes);
ints!(in_i64, i64, yes);
ints!(in_i16, i16, yes);

fn main() {
    let ctx = Ctx::start("C29");
    com_d3(&ctx);
    com_d2(&ctx);
    com_s3(&ctx);
    com_s2(&ctx);
    fl_64(&ctx);
    fl_32(&ctx);
    in_i32(&ctx);
    in_i64(&ctx);
    in_i16(&ctx);
    other::application::<1>(&ctx);
    other::application::<4>(&ctx);
    other::application::<5>(&ctx);
    ctx.bound("actions and parts in one, four and five dimensions where the kinds allow them");
    ctx.finish();
}
