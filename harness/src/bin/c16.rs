//! C16: viewing transforms map the eye to the origin and the viewing direction to +-z.
use cglinalg_core::*;
use cglinalg_transform::*;
use cglmc::*;

const T: f64 = 1e-11;
const T32: f64 = 3e-5;

/// The view rotation by its definition, row-major.
fn view(dir: &[f64; 3], up: &[f64; 3], lh: bool) -> model::M<3, 3> {
    let d = model::unit(dir);
    let z = if lh { d } else { d.map(|x| -x) };
    // the component of `up` perpendicular to the viewing direction points along +y
    let h = model::scale(&d, model::dot(&d, up));
    let y = model::unit(&model::sub(up, &h));
    let x = model::cross(&y, &z);
    [x, y, z]
}
fn same_rotation(c: &mut Case, op: &str, q: Quaternion<f64>, m: &model::M<3, 3>) {
    let a: [f64; 4] = *q.as_ref();
    c.close(op, model::norm(&a), 1.0, T);
    c.close(op, model::qmat(&a), *m, T);
}
fn same_rotation32(c: &mut Case, op: &str, q: Quaternion<f32>, m: &model::M<3, 3>, t: f64) {
    let a: [f64; 4] = (*AsRef::<[f32; 4]>::as_ref(&q)).map(|x| x as f64);
    c.close(op, model::norm(&a), 1.0, T32);
    c.close(op, model::qmat(&a), *m, t);
}
fn rotation_types(c: &mut Case, e: &[f64; 3], d: &[f64; 3], up: &[f64; 3]) {
    let (dir, upv) = (Vector3::from(*d), Vector3::from(*up));
    let eye = Point3::from(*e);
    // the difference of two rounded points
    let ta = T32 * (1.0 + 0.1 * model::norm(e) / model::norm(d));
    let tgt = Point3::from(model::add(e, d));
    let (dir32, up32) = (Vector3::from(d.map(|x| x as f32)), Vector3::from(up.map(|x| x as f32)));
    let eye32 = Point3::from(e.map(|x| x as f32));
    let tgt32 = Point3::from(model::add(e, d).map(|x| x as f32));
    for lh in [true, false] {
        let r = view(d, up, lh);
        let (f, b) = (model::cols(&r), model::cols(&model::tr(&r)));
        macro_rules! hand { ($to:ident $at:ident $toi:ident $ati:ident) => {{
            let m = Matrix3x3::$to(&dir, &upv);
            c.close("matrix look_to", m, f, T);
            c.close("matrix look_at", Matrix3x3::$at(&eye, &tgt, &upv), f, T);
            c.close("matrix look_to inverse", Matrix3x3::$toi(&dir, &upv), b, T);
            c.close("matrix look_at inverse", Matrix3x3::$ati(&eye, &tgt, &upv), b, T);
            c.close("matrix look_to * inverse", m * Matrix3x3::$toi(&dir, &upv), model::ident::<3>(), T);
            c.close("direction goes to the z axis", m * Vector3::from(model::unit(d)), [0.0, 0.0, if lh { 1.0 } else { -1.0 }], T);
            c.close("proper", m.determinant(), 1.0, T);
            same_rotation(c, "quaternion look_to", Quaternion::$to(&dir, &upv), &r);
            same_rotation(c, "quaternion look_at", Quaternion::$at(&eye, &tgt, &upv), &r);
            same_rotation(c, "quaternion look_to inverse", Quaternion::$toi(&dir, &upv), &model::tr(&r));
            same_rotation(c, "quaternion look_at inverse", Quaternion::$ati(&eye, &tgt, &upv), &model::tr(&r));
            c.close("rotation look_to", Rotation3::$to(&dir, &upv), f, T);
            c.close("rotation look_at", Rotation3::$at(&eye, &tgt, &upv), f, T);
            c.close("rotation look_to inverse", Rotation3::$toi(&dir, &upv), b, T);
            c.close("rotation look_at inverse", Rotation3::$ati(&eye, &tgt, &upv), b, T);
            c.close("f32 matrix look_to", Matrix3x3::$to(&dir32, &up32), f, T32);
            c.close("f32 matrix look_to inverse", Matrix3x3::$toi(&dir32, &up32), b, T32);
            c.close("f32 matrix look_at", Matrix3x3::$at(&eye32, &tgt32, &up32), f, ta);
            c.close("f32 matrix look_at inverse", Matrix3x3::$ati(&eye32, &tgt32, &up32), b, ta);
            same_rotation32(c, "f32 quaternion look_to", Quaternion::$to(&dir32, &up32), &r, T32);
            same_rotation32(c, "f32 quaternion look_at", Quaternion::$at(&eye32, &tgt32, &up32), &r, ta);
            same_rotation32(c, "f32 quaternion look_to inverse", Quaternion::$toi(&dir32, &up32), &model::tr(&r), T32);
            same_rotation32(c, "f32 quaternion look_at inverse", Quaternion::$ati(&eye32, &tgt32, &up32), &model::tr(&r), ta);
            c.close("f32 rotation look_to", Rotation3::$to(&dir32, &up32).to_matrix().clone(), f, T32);
            c.close("f32 rotation look_at", Rotation3::$at(&eye32, &tgt32, &up32).to_matrix().clone(), f, ta);
            c.close("f32 rotation look_to inverse", Rotation3::$toi(&dir32, &up32).to_matrix().clone(), b, T32);
            c.close("f32 rotation look_at inverse", Rotation3::$ati(&eye32, &tgt32, &up32).to_matrix().clone(), b, ta);
        }}; }
        if lh { hand!(look_to_lh look_at_lh look_to_lh_inv look_at_lh_inv) } else { hand!(look_to_rh look_at_rh look_to_rh_inv look_at_rh_inv) }
    }
}
fn affine_types(c: &mut Case, e: &[f64; 3], d: &[f64; 3], up: &[f64; 3]) {
    let (dir, upv) = (Vector3::from(*d), Vector3::from(*up));
    let eye = Point3::from(*e);
    // the difference of two rounded points
    let ta = T32 * (1.0 + 0.1 * model::norm(e) / model::norm(d));
    let tgt = Point3::from(model::add(e, d));
    for lh in [true, false] {
        let r = view(d, up, lh);
        let f = model::affine3(&r, &model::mv(&r, e).map(|x| -x));
        let b = model::affine3(&model::tr(&r), e);
        // what the listed defect of the inverse matrices produces instead of the eye position
        let bad = model::affine3(&model::tr(&r), &model::mv(&r, e));
        let (f, b, bad) = (model::cols(&f), model::cols(&b), model::cols(&bad));
        let dist = model::norm(d);
        let zt = [0.0, 0.0, if lh { dist } else { -dist }];
        macro_rules! hand { ($to:ident $at:ident $toi:ident $ati:ident $k1:literal $k2:literal) => {{
            c.close("matrix look_to", Matrix4x4::$to(&eye, &dir, &upv), f, T);
            c.close("matrix look_at", Matrix4x4::$at(&eye, &tgt, &upv), f, T);
            c.close_or_known("matrix look_to inverse", $k1, Matrix4x4::$toi(&eye, &dir, &upv), b, bad, T);
            c.close_or_known("matrix look_at inverse", $k2, Matrix4x4::$ati(&eye, &tgt, &upv), b, bad, T);
            let iso = Isometry3::$to(&eye, &dir, &upv);
            c.close("isometry look_to", iso.to_affine_matrix(), f, T);
            c.close("isometry look_at", Isometry3::$at(&eye, &tgt, &upv).to_affine_matrix(), f, T);
            c.close("isometry look_to inverse", Isometry3::$toi(&eye, &dir, &upv).to_affine_matrix(), b, T);
            c.close("isometry look_at inverse", Isometry3::$ati(&eye, &tgt, &upv).to_affine_matrix(), b, T);
            c.close("isometry moves the eye to the origin", iso.apply_point(&eye), [0.0; 3], T);
            c.close("isometry moves the target onto the z axis", iso.apply_point(&tgt), zt, T);
            c.close("inverse isometry restores the target", Isometry3::$toi(&eye, &dir, &upv).apply_point(&Point3::from(zt)), tgt, T);
            let sim = Similarity3::$to(&eye, &dir, &upv);
            c.close("similarity look_to", sim.to_affine_matrix(), f, T);
            c.close("similarity look_at", Similarity3::$at(&eye, &tgt, &upv).to_affine_matrix(), f, T);
            c.close("similarity look_to inverse", Similarity3::$toi(&eye, &dir, &upv).to_affine_matrix(), b, T);
            c.close("similarity look_at inverse", Similarity3::$ati(&eye, &tgt, &upv).to_affine_matrix(), b, T);
            c.close("similarity scale", (sim.scale(), Similarity3::$ati(&eye, &tgt, &upv).scale()), (1.0, 1.0), T);
            let s32 = |v: &[f64; 3]| v.map(|x| x as f32);
            let (e32, d32, u32) = (Point3::from(s32(e)), Vector3::from(s32(d)), Vector3::from(s32(up)));
            let t32 = Point3::from(s32(&model::add(e, d)));
            c.close("f32 matrix look_to", Matrix4x4::$to(&e32, &d32, &u32), f, T32);
            c.close("f32 matrix look_at", Matrix4x4::$at(&e32, &t32, &u32), f, ta);
            c.close_or_known("f32 matrix look_to inverse", $k1, Matrix4x4::$toi(&e32, &d32, &u32), b, bad, T32);
            c.close_or_known("f32 matrix look_at inverse", $k2, Matrix4x4::$ati(&e32, &t32, &u32), b, bad, ta);
            c.close("f32 isometry look_to", Isometry3::$to(&e32, &d32, &u32).to_affine_matrix(), f, T32);
            c.close("f32 isometry look_at", Isometry3::$at(&e32, &t32, &u32).to_affine_matrix(), f, ta);
            c.close("f32 isometry look_to inverse", Isometry3::$toi(&e32, &d32, &u32).to_affine_matrix(), b, T32);
            c.close("f32 isometry look_at inverse", Isometry3::$ati(&e32, &t32, &u32).to_affine_matrix(), b, ta);
            c.close("f32 similarity look_to", Similarity3::$to(&e32, &d32, &u32).to_affine_matrix(), f, T32);
            c.close("f32 similarity look_at", Similarity3::$at(&e32, &t32, &u32).to_affine_matrix(), f, ta);
            c.close("f32 similarity look_to inverse", Similarity3::$toi(&e32, &d32, &u32).to_affine_matrix(), b, T32);
            c.close("f32 similarity look_at inverse", Similarity3::$ati(&e32, &t32, &u32).to_affine_matrix(), b, ta);
        }}; }
        if lh {
            hand!(look_to_lh look_at_lh look_to_lh_inv look_at_lh_inv "Matrix4x4::look_to_lh_inv" "Matrix4x4::look_at_lh_inv")
        } else {
            hand!(look_to_rh look_at_rh look_to_rh_inv look_at_rh_inv "Matrix4x4::look_to_rh_inv" "Matrix4x4::look_at_rh_inv")
        }
    }
}

/// Matrices of a scene measured in units of z (a power of two, so exact).
fn unscale<S: Copy + Into<f64>>(m: Matrix4x4<S>, z: f64) -> [[f64; 4]; 4] {
    let mut r = [[0.0; 4]; 4];
    for (q, col) in r.iter_mut().enumerate() {
        for (p, x) in col.iter_mut().enumerate() {
            let v: f64 = m[q][p].into();
            *x = if q == 3 && p < 3 { v / z } else { v };
        }
    }
    r
}
fn scene(c: &mut Case, e: &[f64; 3], d: &[f64; 3], up: &[f64; 3], z: f64) {
    let (dir, upv) = (Vector3::from(*d), Vector3::from(*up));
    let eye = Point3::from(*e);
    let tgt = Point3::from(model::add(e, d));
    let eu = e.map(|x| x / z);
    for lh in [true, false] {
        let r = view(d, up, lh);
        let f3 = model::cols(&r);
        let b3 = model::cols(&model::tr(&r));
        let f = model::cols(&model::affine3(&r, &model::mv(&r, &eu).map(|x| -x)));
        let b = model::cols(&model::affine3(&model::tr(&r), &eu));
        macro_rules! hand { ($to:ident $at:ident $toi:ident $ati:ident) => {{
            c.close("matrix look_to", unscale(Matrix4x4::$to(&eye, &dir, &upv), z), f, T);
            c.close("matrix look_at", unscale(Matrix4x4::$at(&eye, &tgt, &upv), z), f, T);
            c.close("isometry look_to", unscale(Isometry3::$to(&eye, &dir, &upv).to_affine_matrix(), z), f, T);
            c.close("isometry look_at", unscale(Isometry3::$at(&eye, &tgt, &upv).to_affine_matrix(), z), f, T);
            c.close("isometry look_to inverse", unscale(Isometry3::$toi(&eye, &dir, &upv).to_affine_matrix(), z), b, T);
            c.close("isometry look_at inverse", unscale(Isometry3::$ati(&eye, &tgt, &upv).to_affine_matrix(), z), b, T);
            c.close("similarity look_to", unscale(Similarity3::$to(&eye, &dir, &upv).to_affine_matrix(), z), f, T);
            c.close("similarity look_at", unscale(Similarity3::$at(&eye, &tgt, &upv).to_affine_matrix(), z), f, T);
            c.close("similarity look_to inverse", unscale(Similarity3::$toi(&eye, &dir, &upv).to_affine_matrix(), z), b, T);
            c.close("similarity look_at inverse", unscale(Similarity3::$ati(&eye, &tgt, &upv).to_affine_matrix(), z), b, T);
            c.close("rotation look_to", Rotation3::$to(&dir, &upv), f3, T);
            c.close("rotation look_at", Rotation3::$at(&eye, &tgt, &upv), f3, T);
            c.close("rotation look_to inverse", Rotation3::$toi(&dir, &upv), b3, T);
            c.close("rotation look_at inverse", Rotation3::$ati(&eye, &tgt, &upv), b3, T);
            c.close("matrix look_to", Matrix3x3::$to(&dir, &upv), f3, T);
            c.close("matrix look_at", Matrix3x3::$at(&eye, &tgt, &upv), f3, T);
            c.close("matrix look_to inverse", Matrix3x3::$toi(&dir, &upv), b3, T);
            c.close("matrix look_at inverse", Matrix3x3::$ati(&eye, &tgt, &upv), b3, T);
            same_rotation(c, "quaternion look_to", Quaternion::$to(&dir, &upv), &r);
            same_rotation(c, "quaternion look_at", Quaternion::$at(&eye, &tgt, &upv), &r);
            same_rotation(c, "quaternion look_to inverse", Quaternion::$toi(&dir, &upv), &model::tr(&r));
            same_rotation(c, "quaternion look_at inverse", Quaternion::$ati(&eye, &tgt, &upv), &model::tr(&r));
            // single precision at the square root of the scale
            let h = z.abs().log2().div_euclid(2.0).exp2();
            let s = |v: &[f64; 3], k: f64| v.map(|x| (x / z * k) as f32);
            let (e4, d4, u4) = (Point3::from(s(e, h)), Vector3::from(s(d, h)), Vector3::from(up.map(|x| (x * z / h) as f32)));
            let t4 = e4 + d4;
            c.close("f32 matrix look_to", unscale(Matrix4x4::$to(&e4, &d4, &u4), h), f, T32);
            c.close("f32 matrix look_at", unscale(Matrix4x4::$at(&e4, &t4, &u4), h), f, T32 * 16.0);
            c.close("f32 isometry look_to", unscale(Isometry3::$to(&e4, &d4, &u4).to_affine_matrix(), h), f, T32);
            c.close("f32 isometry look_to inverse", unscale(Isometry3::$toi(&e4, &d4, &u4).to_affine_matrix(), h), b, T32);
            c.close("f32 similarity look_to", unscale(Similarity3::$to(&e4, &d4, &u4).to_affine_matrix(), h), f, T32);
            c.close("f32 rotation look_to", Rotation3::$to(&d4, &u4).matrix(), f3, T32);
            c.close("f32 rotation look_to inverse", Rotation3::$toi(&d4, &u4).matrix(), b3, T32);
        }}; }
        if lh { hand!(look_to_lh look_at_lh look_to_lh_inv look_at_lh_inv) } else { hand!(look_to_rh look_at_rh look_to_rh_inv look_at_rh_inv) }
    }
}

fn main() {
    let ctx = Ctx::start("C16");
    ctx.bound("every ordered pair of grid directions (74; thorough 146) as viewing direction and up vector that are not within 8 degrees of parallel, lengths 1, 3, 0.25, 10 varied, with every eye of a small lattice");
    let dirs = grid::directions3(ctx.thorough());
    let ups = grid::directions3(ctx.thorough());
    let ev: &[f64] = ctx.grade(&[0.0, 1.5, -3.0], &[0.0, 1.5, -3.0, 20.0], &[0.0, 1.5, -3.0, 20.0, -0.125, 8.0]);
    let eyes: Vec<[f64; 3]> = (0..ev.len().pow(3)).map(|i| grid::tuple(ev, i)).collect();
    let lens = [1.0, 3.0, 0.25, 10.0];
    ctx.par("rotations", dirs.len(), |i, s| {
        for (j, u) in ups.iter().enumerate() {
            if model::dot(&dirs[i], u).abs() > 0.99 { continue; }
            for (k, l) in lens.iter().enumerate() {
                let d = model::scale(&dirs[i], *l);
                let up = model::scale(u, lens[(j + k) % 4]);
                let e = eyes[(i + j + k) % eyes.len()];
                s.case(|| format!("eye {e:?} direction {d:?} up {up:?}"), |c| rotation_types(c, &e, &d, &up));
            }
        }
    });
    ctx.par("affine", dirs.len(), |i, s| {
        for (j, u) in ups.iter().enumerate() {
            if model::dot(&dirs[i], u).abs() > 0.99 { continue; }
            for (k, e) in eyes.iter().enumerate() {
                // every eye in thorough; a third of the eyes per pair in quick, every eye for every direction
                if !ctx.thorough() && (i + j + k) % 3 != 0 { continue; }
                let d = model::scale(&dirs[i], lens[(i + j + k) % 4]);
                let up = model::scale(u, lens[(j + 2 * k) % 4]);
                s.case(|| format!("eye {e:?} direction {d:?} up {up:?}"), |c| affine_types(c, e, &d, &up));
            }
        }
    });
    // scenes of other sizes: eye and target far away or close together, up vectors of any length
    let exps = ctx.pick(vec![-30, 30, -12, 12], (-40..=40).step_by(8).collect());
    ctx.bound(&format!("the whole scene rescaled by 2^e, e in {exps:?}, the up vector by 2^-e"));
    ctx.par("rescaled", dirs.len(), |i, s| {
        for (j, u) in ups.iter().enumerate().skip(i % 3).step_by(ctx.pick(3, 1)) {
            if model::dot(&dirs[i], u).abs() > 0.99 { continue; }
            for &e in &exps {
                let z = 2f64.powi(e);
                let eye = eyes[(i + 2 * j) % eyes.len()].map(|x| x * z);
                let d = model::scale(&dirs[i], lens[(i + j) % 4] * z);
                let up = model::scale(u, 1.0 / z);
                s.case(|| format!("eye {eye:?} direction {d:?} up {up:?}"), |c| scene(c, &eye, &d, &up, z));
            }
        }
    });
    // vectors that are almost of unit length
    let nl = [0.999, 1.001, 1.0 - 1e-6, 1.0 + 1e-6, 1.0 + 1e-9];
    ctx.bound(&format!("directions and up vectors of lengths {nl:?}; up vectors within 0.1 .. 1e-5 radians of the viewing direction or its opposite"));
    ctx.par("nearly-unit", dirs.len(), |i, s| {
        for (j, u) in ups.iter().enumerate().skip(i % 3).step_by(ctx.pick(3, 1)) {
            if model::dot(&dirs[i], u).abs() > 0.99 { continue; }
            for (k, l) in nl.iter().enumerate() {
                let d = model::scale(&dirs[i], *l);
                let up = model::scale(u, nl[(j + k) % nl.len()]);
                let e = eyes[(i + j + k) % eyes.len()];
                s.case(|| format!("eye {e:?} direction {d:?} up {up:?}"), |c| {
                    rotation_types(c, &e, &d, &up);
                    affine_types(c, &e, &d, &up);
                });
            }
        }
    });
    ctx.par("nearly-parallel", dirs.len(), |i, s| {
        let d = dirs[i];
        for (j, w) in dirs.iter().enumerate() {
            let y = model::sub(w, &model::scale(&d, model::dot(w, &d)));
            if model::norm(&y) < 0.3 || (i + j) % ctx.pick(4, 1) != 0 { continue; }
            let y = model::unit(&y);
            for t in [0.1, 0.03, 0.01, 1e-3, 1e-4, 1e-5f64] {
                for sg in [1.0, -1.0] {
                    let up = model::add(&model::scale(&d, sg * t.cos()), &model::scale(&y, t.sin()));
                    let e = eyes[(i + j) % eyes.len()];
                    s.case(|| format!("eye {e:?} direction {d:?} up {up:?} ({t} off)"), |c| {
                        let tol = 1e-13 + 2e-14 / t;
                        let (dir, upv, eye, tgt) = (Vector3::from(d), Vector3::from(up), Point3::from(e), Point3::from(model::add(&e, &d)));
                        for lh in [true, false] {
                            let z = if lh { d } else { d.map(|x| -x) };
                            let r = [model::cross(&y, &z), y, z];
                            let f = model::affine3(&r, &model::mv(&r, &e).map(|x| -x));
                            let b = model::affine3(&model::tr(&r), &e);
                            let (f3, b3, f, b) = (model::cols(&r), model::cols(&model::tr(&r)), model::cols(&f), model::cols(&b));
                            macro_rules! hand { ($to:ident $at:ident $toi:ident $ati:ident) => {{
                                let far = 16.0 * tol;
                                c.close("matrix look_to", Matrix3x3::$to(&dir, &upv), f3, tol);
                                c.close("matrix look_at", Matrix3x3::$at(&eye, &tgt, &upv), f3, far);
                                c.close("matrix look_to inverse", Matrix3x3::$toi(&dir, &upv), b3, tol);
                                c.close("matrix look_at inverse", Matrix3x3::$ati(&eye, &tgt, &upv), b3, far);
                                c.close("affine matrix look_to", Matrix4x4::$to(&eye, &dir, &upv), f, far);
                                c.close("affine matrix look_at", Matrix4x4::$at(&eye, &tgt, &upv), f, far);
                                let q = Quaternion::$to(&dir, &upv);
                                c.close("quaternion look_to", model::qmat(q.as_ref()), r, far);
                                let q = Quaternion::$at(&eye, &tgt, &upv);
                                c.close("quaternion look_at", model::qmat(q.as_ref()), r, far);
                                c.close("rotation look_to", Rotation3::$to(&dir, &upv), f3, tol);
                                c.close("rotation look_at inverse", Rotation3::$ati(&eye, &tgt, &upv), b3, far);
                                c.close("isometry look_to", Isometry3::$to(&eye, &dir, &upv).to_affine_matrix(), f, far);
                                c.close("isometry look_at", Isometry3::$at(&eye, &tgt, &upv).to_affine_matrix(), f, far);
                                c.close("isometry look_at inverse", Isometry3::$ati(&eye, &tgt, &upv).to_affine_matrix(), b, far);
                                c.close("similarity look_to", Similarity3::$to(&eye, &dir, &upv).to_affine_matrix(), f, far);
                                c.close("similarity look_at inverse", Similarity3::$ati(&eye, &tgt, &upv).to_affine_matrix(), b, far);
                                if t >= 0.01 {
                                    let g = |v: &[f64; 3]| v.map(|x| x as f32);
                                    c.close("f32 matrix look_to", Matrix3x3::$to(&Vector3::from(g(&d)), &Vector3::from(g(&up))), f3, 2e-6 / t);
                                }
                            }}; }
                            if lh { hand!(look_to_lh look_at_lh look_to_lh_inv look_at_lh_inv) } else { hand!(look_to_rh look_at_rh look_to_rh_inv look_at_rh_inv) }
                        }
                    });
                }
            }
        }
    });
    ctx.finish();
}
