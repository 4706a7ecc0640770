//! C17: projections map the view volume to the canonical cube and unproject back.
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::{Degrees, Radians};
use cglmc::*;


/// Where a view-space point lands in the canonical cube, by similar triangles / linear interpolation.
fn persp(v: &[f64; 6], p: &[f64; 3]) -> [f64; 3] {
    let [l, r, b, t, n, f] = *v;
    let depth = -p[2];
    // the point's position on the near plane
    let (x, y) = (p[0] * n / depth, p[1] * n / depth);
    // hyperbolic depth: affine in 1/depth, -1 at near, +1 at far
    let k = (1.0 / n - 1.0 / depth) / (1.0 / n - 1.0 / f);
    [-1.0 + 2.0 * (x + l) / (r + l), -1.0 + 2.0 * (y + b) / (t + b), -1.0 + 2.0 * k]
}
fn ortho(v: &[f64; 6], p: &[f64; 3]) -> [f64; 3] {
    let [l, r, b, t, n, f] = *v;
    [-1.0 + 2.0 * (p[0] + l) / (r + l), -1.0 + 2.0 * (p[1] + b) / (t + b), -1.0 + 2.0 * (-p[2] - n) / (f - n)]
}
/// Lattice points of the volume: corners, faces, interior and a little outside.
fn points(v: &[f64; 6], perspective: bool, fine: bool) -> Vec<[f64; 3]> {
    let [l, r, b, t, n, f] = *v;
    let ks: &[f64] = if fine { &[0.0, 0.125, 0.3, 0.5, 0.75, 1.0, 1.2, -0.25] } else { &[0.0, 0.3, 0.5, 1.0, 1.2] };
    let mut out = Vec::new();
    for a in ks {
        for c in ks {
            for e in ks {
                let depth = if *e < 0.0 { n * 0.75 } else { n + (f - n) * e };
                let s = if perspective { depth / n } else { 1.0 };
                out.push([(-l + (l + r) * a) * s, (-b + (b + t) * c) * s, -depth]);
            }
        }
    }
    out
}

/// One copy per scalar type. `unit` is the size of the scene: results in view space are compared in
/// that unit, so a volume of microns is held to the same relative accuracy as one of kilometres.
macro_rules! checks {
    ($m:ident, $F:ident, $T:expr) => {
        mod $m {
            use super::*;
            const T: f64 = $T;
            fn pt(q: &[f64; 3]) -> Point3<$F> {
                Point3::new(q[0] as $F, q[1] as $F, q[2] as $F)
            }
            fn ve(q: &[f64; 3]) -> Vector3<$F> {
                Vector3::new(q[0] as $F, q[1] as $F, q[2] as $F)
            }
            /// Rounding of the hyperbolic depth is magnified by up to (far/near)^2 / (far/near - 1) when unprojecting.
            fn back(v: &[f64; 6]) -> f64 {
                let k = v[5] / v[4];
                if T < 1e-6 { T } else { T * k * k / (k - 1.0) }
            }
            pub fn params(c: &mut Case, op: &str, got: [$F; 6], v: &[f64; 6]) {
                for i in 0..6 {
                    c.close(op, got[i] as f64 / v[i], 1.0, if i < 4 { T } else { back(v).min(0.5) });
                }
            }
            fn frame(c: &mut Case, name: &str, axes: [Unit<Vector3<$F>>; 8], b: (($F, $F), ($F, $F), ($F, $F))) {
                let w: [[f64; 3]; 8] = [
                    [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, -1.0],
                    [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, 1.0],
                ];
                for i in 0..8 {
                    c.eq(name, axes[i], w[i]);
                }
                c.eq("bounds", b, ((-1.0, 1.0), (-1.0, 1.0), (-1.0, 1.0)));
            }
            pub fn perspective(c: &mut Case, v: &[f64; 6], fine: bool, unit: f64) {
                let [l, r, b, t, n, f] = v.map(|x| x as $F);
                let u = unit as $F;
                let tb = back(v);
                let p = Perspective3::new(l, r, b, t, n, f);
                let m = Matrix4x4::from_perspective(l, r, b, t, n, f);
                c.eq("matrix", *p.matrix(), m);
                c.eq("to_projective_matrix", p.to_projective_matrix(), m);
                c.eq("as_ref", *p.as_ref(), m);
                c.eq("into matrix", Matrix4x4::from(p), m);
                c.eq("to_transform", p.to_transform().to_matrix(), m);
                params(c, "parameters", [p.left(), p.right(), p.bottom(), p.top(), p.near(), p.far()], v);
                c.close("aspect_ratio", p.aspect_ratio(), (v[0] + v[1]) / (v[2] + v[3]), T);
                c.close("vfov", p.vfov(), (v[3] / v[4]).atan() + (v[2] / v[4]).atan(), T);
                frame(c, "frame", [p.view_unit_right(), p.view_unit_up(), p.view_unit_depth(), p.view_unit_gaze(),
                    p.clip_unit_right(), p.clip_unit_up(), p.clip_unit_depth(), p.clip_unit_gaze()], p.clip_ndc_bounds());
                let tr = p.to_transform();
                for q in points(v, true, fine) {
                    let w = persp(v, &q);
                    let qu = q.map(|x| x / unit);
                    let (lp, lv) = (pt(&q), ve(&q));
                    let g = p.project_point(&lp);
                    c.close("project_point", g, w, T);
                    c.close("project_vector", p.project_vector(&lv), w, T);
                    c.close("operators", [p * lp, &p * lp, p * &lp, &p * &lp], [w; 4], T);
                    c.close("vector operators", [p * lv, &p * lv, p * &lv, &p * &lv], [w; 4], T);
                    let h = m * Vector4::new(lp[0], lp[1], lp[2], 1.0);
                    c.close("matrix and division", [h[0] / h[3], h[1] / h[3], h[2] / h[3]], w, T);
                    c.close("clip w is the depth", h[3] / u, -qu[2], T);
                    c.close("transform", tr.apply_point(&lp), w, T);
                    c.close("unproject_point", p.unproject_point(&pt(&w)) / u, qu, tb);
                    c.close("unproject_vector", p.unproject_vector(&ve(&w)) / u, qu, tb);
                    c.close("project then unproject", p.unproject_point(&g) / u, qu, tb);
                    c.close("unproject then project", p.project_point(&p.unproject_point(&pt(&w))), w, 4.0 * tb);
                }
                // behind the eye the homogeneous action is the same; depths just off the near plane
                for q in [[0.4, -0.2, 0.5], [-1.5, 0.75, 2.0], [3.0, 3.0, 0.125]] {
                    let q = q.map(|x| x * unit);
                    let w = persp(v, &q);
                    let qu = q.map(|x| x / unit);
                    let big = w.iter().fold(1.0f64, |m, x| m.max(x.abs()));
                    let scale = $F::from(big as $F);
                    let ws = w.map(|x| x / big);
                    c.close("project_point behind", p.project_point(&pt(&q)) / scale, ws, T);
                    c.close("project_vector behind", p.project_vector(&ve(&q)) / scale, ws, T);
                    c.close("operators behind", [p * pt(&q) / scale, &p * &pt(&q) / scale], [ws; 2], T);
                    if T < 1e-6 {
                        c.close("unproject_point behind", p.unproject_point(&pt(&w)) / u, qu, tb);
                        c.close("unproject_vector behind", p.unproject_vector(&ve(&w)) / u, qu, tb);
                    }
                }
                if T < 1e-6 {
                    for z in [-1.0 + 5e-4, -1.0 - 5e-4, -1.0 + 1e-6, 1.0 - 1e-4, -1e-5, 1e-5, 0.0] {
                        let w = [0.25, -0.75, z];
                        let d = 1.0 / (1.0 / v[4] - (z + 1.0) / 2.0 * (1.0 / v[4] - 1.0 / v[5]));
                        let q = [((w[0] + 1.0) / 2.0 * (v[0] + v[1]) - v[0]) * d / v[4], ((w[1] + 1.0) / 2.0 * (v[2] + v[3]) - v[2]) * d / v[4], -d];
                        let qu = q.map(|x| x / unit);
                        c.close("unproject_point off the planes", p.unproject_point(&pt(&w)) / u, qu, tb);
                        c.close("project_point off the planes", p.project_point(&pt(&q)), w, T);
                    }
                }
                if T < 1e-6 && unit == 1.0 {
                    if let Some(i) = m.try_inverse() {
                        for q in points(v, true, false) {
                            let w = ve(&persp(v, &q));
                            let h = i * Vector4::new(w[0], w[1], w[2], 1.0);
                            c.close("inverse matrix", [h[0] / h[3], h[1] / h[3], h[2] / h[3]], q, 1e-7);
                        }
                    }
                }
            }
            pub fn orthographic(c: &mut Case, v: &[f64; 6], fine: bool, unit: f64) {
                let [l, r, b, t, n, f] = v.map(|x| x as $F);
                let u = unit as $F;
                // rounding of the offsets (f + n) / (f - n) and so on
                let k = ((v[5] + v[4]) / (v[5] - v[4])).max(1.0);
                let to = if T < 1e-6 { T } else { T * k };
                let p = Orthographic3::new(l, r, b, t, n, f);
                let m = Matrix4x4::from_orthographic(l, r, b, t, n, f);
                c.eq("matrix", *p.matrix(), m);
                c.eq("to_projective_matrix", p.to_projective_matrix(), m);
                c.eq("as_ref", *p.as_ref(), m);
                c.eq("into matrix", Matrix4x4::from(p), m);
                c.eq("to_transform", p.to_transform().to_matrix(), m);
                params(c, "parameters", [p.left(), p.right(), p.bottom(), p.top(), p.near(), p.far()], v);
                frame(c, "frame", [p.view_unit_right(), p.view_unit_up(), p.view_unit_depth(), p.view_unit_gaze(),
                    p.clip_unit_right(), p.clip_unit_up(), p.clip_unit_depth(), p.clip_unit_gaze()], p.clip_ndc_bounds());
                let tr = p.to_transform();
                let o = ortho(v, &[0.0; 3]);
                for q in points(v, false, fine) {
                    let w = ortho(v, &q);
                    let wv = model::sub(&w, &o);
                    let qu = q.map(|x| x / unit);
                    let (lp, lv) = (pt(&q), ve(&q));
                    let g = p.project_point(&lp);
                    c.close("project_point", g, w, to);
                    c.close("project_vector", p.project_vector(&lv), wv, to);
                    c.close("operators", [p * lp, &p * lp, p * &lp, &p * &lp], [w; 4], to);
                    c.close("vector operators", [p * lv, &p * lv, p * &lv, &p * &lv], [wv; 4], to);
                    let h = m * Vector4::new(lp[0], lp[1], lp[2], 1.0);
                    c.close("matrix", h, [w[0], w[1], w[2], 1.0], to);
                    c.close("transform", (tr.apply_point(&lp), tr.apply_vector(&lv)), (w, wv), to);
                    c.close("unproject_point", p.unproject_point(&pt(&w)) / u, qu, to);
                    c.close("unproject_vector", p.unproject_vector(&ve(&wv)) / u, qu, to);
                    c.close("project then unproject", p.unproject_point(&g) / u, qu, to);
                }
            }
            /// Extreme shapes: every matrix element against its formula, relative to its own size, and the planes read back.
            pub fn extreme(c: &mut Case, v: &[f64; 6]) {
                let [l, r, b, t, n, f] = *v;
                let [fl, fr, fb, ft, fnn, ff] = v.map(|x| x as $F);
                let e = $F::EPSILON as f64;
                let tol = 32.0 * e;
                let w: [[f64; 4]; 4] = [
                    [2.0 * n / (r + l), 0.0, 0.0, 0.0],
                    [0.0, 2.0 * n / (t + b), 0.0, 0.0],
                    [(r - l) / (r + l), (t - b) / (t + b), -(f + n) / (f - n), -1.0],
                    [0.0, 0.0, -2.0 * f * n / (f - n), 0.0],
                ];
                let p = Perspective3::new(fl, fr, fb, ft, fnn, ff);
                elements(c, "perspective element", &Matrix4x4::from_perspective(fl, fr, fb, ft, fnn, ff), &w, tol);
                elements(c, "perspective element", p.matrix(), &w, tol);
                let k = f / n;
                let d = f / (f - n);
                let g = p.project_point(&Point3::new(0.0, 0.0, -fnn));
                c.rel("projection of the view axis", g[0], -(r - l) / (r + l), tol);
                c.rel("projection of the view axis", g[1], -(t - b) / (t + b), tol);
                // beyond this ratio the matrix rounds to one with an infinite far plane
                if e * k < 1e-2 && e * d < 1e-2 {
                    c.rel("near", p.near(), n, 64.0 * e * d);
                    c.rel("far", p.far(), f, 64.0 * e * k * d);
                    c.rel("right + left", p.right() + p.left(), r + l, 64.0 * e * d);
                    c.rel("top + bottom", p.top() + p.bottom(), t + b, 64.0 * e * d);
                    c.close("right - left", (p.right() - p.left()) as f64 / (r + l), (r - l) / (r + l), 64.0 * e * d);
                    c.close("top - bottom", (p.top() - p.bottom()) as f64 / (t + b), (t - b) / (t + b), 64.0 * e * d);
                }
                let w: [[f64; 4]; 4] = [
                    [2.0 / (r + l), 0.0, 0.0, 0.0],
                    [0.0, 2.0 / (t + b), 0.0, 0.0],
                    [0.0, 0.0, -2.0 / (f - n), 0.0],
                    [-(r - l) / (r + l), -(t - b) / (t + b), -(f + n) / (f - n), 1.0],
                ];
                let p = Orthographic3::new(fl, fr, fb, ft, fnn, ff);
                elements(c, "orthographic element", &Matrix4x4::from_orthographic(fl, fr, fb, ft, fnn, ff), &w, tol);
                elements(c, "orthographic element", p.matrix(), &w, tol);
                let g = p.project_point(&Point3::new(0.0, 0.0, -fnn));
                c.rel("orthographic projection of the view axis", g[0], -(r - l) / (r + l), tol);
                c.rel("orthographic projection of the view axis", g[1], -(t - b) / (t + b), tol);
                if e * k < 1e-2 && e * d < 1e-2 {
                    c.rel("orthographic near", p.near(), n, 64.0 * e * k.max(d));
                    c.rel("orthographic far", p.far(), f, 64.0 * e * k.max(d));
                }
                c.rel("orthographic right + left", p.right() + p.left(), r + l, 64.0 * e);
                c.rel("orthographic top + bottom", p.top() + p.bottom(), t + b, 64.0 * e);
                c.close("orthographic right - left", (p.right() - p.left()) as f64 / (r + l), (r - l) / (r + l), 64.0 * e);
                c.close("orthographic top - bottom", (p.top() - p.bottom()) as f64 / (t + b), (t - b) / (t + b), 64.0 * e);
            }
            /// Points of every size in an ordinary volume, each coordinate relative to the terms it is the sum of.
            pub fn sizes(c: &mut Case, v: &[f64; 6], q: &[f64; 3]) {
                let [l, r, b, t, n, f] = *v;
                let [fl, fr, fb, ft, fnn, ff] = v.map(|x| x as $F);
                let tol = 64.0 * $F::EPSILON as f64;
                let q = q.map(|x| x as $F as f64);
                let sum = |c: &mut Case, op: &str, got: $F, x: f64, y: f64, by: f64| c.scaled(op, got, (x + y) / by, (x.abs() + y.abs()) / by.abs(), tol);
                let p = Orthographic3::new(fl, fr, fb, ft, fnn, ff);
                let (lp, lv) = (pt(&q), ve(&q));
                let k = [2.0 / (r + l), 2.0 / (t + b), -2.0 / (f - n)];
                let o = [-(r - l) / (r + l), -(t - b) / (t + b), -(f + n) / (f - n)];
                let (g, h, gv, hv) = (p.project_point(&lp), p * lp, p.project_vector(&lv), p * lv);
                let (m, mv) = (p.to_transform().apply_point(&lp), p.to_transform().apply_vector(&lv));
                for i in 0..3 {
                    sum(c, "orthographic project_point", g[i], k[i] * q[i], o[i], 1.0);
                    sum(c, "orthographic * point", h[i], k[i] * q[i], o[i], 1.0);
                    sum(c, "orthographic transform", m[i], k[i] * q[i], o[i], 1.0);
                    sum(c, "orthographic project_vector", gv[i], k[i] * q[i], 0.0, 1.0);
                    sum(c, "orthographic * vector", hv[i], k[i] * q[i], 0.0, 1.0);
                    sum(c, "orthographic transform of a vector", mv[i], k[i] * q[i], 0.0, 1.0);
                }
                let (x, xv) = (p.unproject_point(&lp), p.unproject_vector(&lv));
                let amp = [1.0, 1.0, (f / n).max(f / (f - n))];
                for i in 0..3 {
                    c.scaled("orthographic unproject_point", x[i], (q[i] - o[i]) / k[i], (q[i].abs() + o[i].abs()) / k[i].abs(), 4.0 * tol * amp[i]);
                    c.scaled("orthographic unproject_vector", xv[i], q[i] / k[i], q[i].abs() / k[i].abs(), 4.0 * tol * amp[i]);
                }
                if q[2] == 0.0 { return; }
                let p = Perspective3::new(fl, fr, fb, ft, fnn, ff);
                let terms = [
                    (2.0 * n / (r + l) * q[0], (r - l) / (r + l) * q[2]),
                    (2.0 * n / (t + b) * q[1], (t - b) / (t + b) * q[2]),
                    (-(f + n) / (f - n) * q[2], -2.0 * f * n / (f - n)),
                ];
                let (g, h, gv, m) = (p.project_point(&lp), p * lp, p.project_vector(&lv), p.to_transform().apply_point(&lp));
                for i in 0..3 {
                    let (x, y) = terms[i];
                    sum(c, "perspective project_point", g[i], x, y, -q[2]);
                    sum(c, "perspective * point", h[i], x, y, -q[2]);
                    sum(c, "perspective project_vector", gv[i], x, y, -q[2]);
                    sum(c, "perspective transform", m[i], x, y, -q[2]);
                }
            }
            /// Every element relative to its own size: the planes are exact in the type, so differences of close planes are exact too.
            fn elements(c: &mut Case, op: &str, m: &Matrix4x4<$F>, w: &[[f64; 4]; 4], tol: f64) {
                for i in 0..4 { for j in 0..4 {
                    let x = w[i][j];
                    if x == 0.0 { c.close(op, m[i][j], 0.0, 0.0); } else { c.rel(op, m[i][j], x, tol); }
                } }
            }
            /// Extreme angles: tan(fov / 2) relative to its own size, and every ratio of far to near.
            pub fn extreme_angle(c: &mut Case, deg: f64, ar: f64, near: f64, far: f64) {
                let fov = (grid::deg(deg) as $F) as f64;
                let h = (fov / 2.0).tan();
                let e = $F::EPSILON as f64;
                let tol = 64.0 * e / (std::f64::consts::PI - fov).min(1.0);
                let w: [[f64; 4]; 4] = [
                    [1.0 / (ar * h), 0.0, 0.0, 0.0],
                    [0.0, 1.0 / h, 0.0, 0.0],
                    [0.0, 0.0, -(far + near) / (far - near), -1.0],
                    [0.0, 0.0, -2.0 * far * near / (far - near), 0.0],
                ];
                let (a, n, f) = (ar as $F, near as $F, far as $F);
                elements(c, "vfov element", &Matrix4x4::from_perspective_vfov(Radians(fov as $F), a, n, f), &w, tol);
                elements(c, "vfov element, degrees", &Matrix4x4::from_perspective_vfov(Degrees((fov as $F).to_degrees()), a, n, f), &w, 4.0 * tol);
                let p = Perspective3::from_vfov(Radians(fov as $F), a, n, f);
                elements(c, "from_vfov element", p.matrix(), &w, tol);
                c.rel("vfov", p.vfov(), fov, 4.0 * tol);
                c.rel("aspect", p.aspect_ratio(), ar, 4.0 * tol);
            }
            pub fn field_of_view(c: &mut Case, deg: f64, ar: f64, near: f64, far: f64, unit: f64) {
                let fov = grid::deg(deg);
                let top = near * (fov / 2.0).tan();
                let v = [top * ar, top * ar, top, top, near, far];
                let (a, n, f) = (ar as $F, near as $F, far as $F);
                let tf = if T < 1e-6 { T } else { 20.0 * T };
                let m = Matrix4x4::from_perspective_vfov(Radians(fov as $F), a, n, f);
                let [vl, vr, vb, vt, vn, vf] = v.map(|x| x as $F);
                let planes = Matrix4x4::from_perspective(vl, vr, vb, vt, vn, vf);
                // the last column's depth entry carries the unit
                let un = |m: Matrix4x4<$F>| { let mut x = m; x[3][2] = x[3][2] / unit as $F; x };
                c.close("vfov matrix agrees with planes", un(m), un(planes), tf);
                c.close("degrees", un(Matrix4x4::from_perspective_vfov(Degrees(deg as $F), a, n, f)), un(planes), tf);
                let p = Perspective3::from_vfov(Degrees(deg as $F), a, n, f);
                c.close("from_vfov degrees", un(*p.matrix()), un(planes), tf);
                let p = Perspective3::from_vfov(Radians(fov as $F), a, n, f);
                c.close("from_vfov", un(*p.matrix()), un(planes), tf);
                c.close("vfov read back", p.vfov(), fov, tf);
                c.close("aspect ratio read back", p.aspect_ratio(), ar, tf);
                if T < 1e-6 {
                    params(c, "planes read back", [p.left(), p.right(), p.bottom(), p.top(), p.near(), p.far()], &v);
                }
                for q in points(&v, true, false) {
                    let w = persp(&v, &q);
                    c.close("project_point", p.project_point(&pt(&q)), w, tf);
                    c.close("unproject_point", p.unproject_point(&pt(&w)) / unit as $F, q.map(|x| x / unit), if T < 1e-6 { T } else { 20.0 * back(&v) });
                }
            }
        }
    };
}
checks!(wide, f64, 1e-9);
checks!(narrow, f32, 4e-5);

fn main() {
    let ctx = Ctx::start("C17");
    ctx.bound("all documented (positive) plane placements over a value list per plane, asymmetric ones included, near/far pairs, lattices of 125 (thorough 512) points inside, on and slightly outside the volume; f64 and f32");
    ctx.bound("the same volumes at every scene size 2^k, 3^k of a list from 2^-40 to 2^40 (f32: 2^-12 to 2^12)");
    ctx.bound("fields of view from 5 to 175 degrees in steps of 5 (thorough 1) x aspect ratios x near/far pairs, at three scene sizes");
    ctx.assume("volumes with left, right, bottom, top > 0 and far > near > 0, as documented");
    let vals: &[f64] = ctx.pick(&[1.0, 2.5, 0.3], &[1.0, 2.5, 0.3, 8.0, 0.05, 1.3]);
    let nf: &[(f64, f64)] = ctx.pick(&[(1.0, 100.0), (0.25, 2.0), (3.0, 4.0)], &[(1.0, 100.0), (0.25, 2.0), (3.0, 4.0), (0.1, 1000.0), (50.0, 75.0), (0.7, 1.9)]);
    let nf32: &[(f64, f64)] = &[(1.0, 20.0), (0.25, 2.0), (3.0, 4.5)];
    let k = vals.len();
    let vol = |i: usize, nf: &[(f64, f64)], unit: f64| {
        let a: [f64; 4] = grid::tuple(vals, i / nf.len());
        let (near, far) = nf[i % nf.len()];
        [a[0], a[1], a[2], a[3], near, far].map(|x| x * unit)
    };
    let fine = ctx.thorough();
    let n = k.pow(4) * nf.len();
    let name = |v: &[f64; 6]| format!("left,right,bottom,top,near,far = {v:?}");
    ctx.par("perspective", n, |i, s| {
        let v = vol(i, nf, 1.0);
        s.case(|| name(&v), |c| wide::perspective(c, &v, fine, 1.0));
    });
    ctx.par("orthographic", n, |i, s| {
        let v = vol(i, nf, 1.0);
        s.case(|| name(&v), |c| wide::orthographic(c, &v, fine, 1.0));
    });
    let units: Vec<f64> = ctx.pick(vec![(-40f64).exp2(), (-20f64).exp2(), 3f64.powi(-6), 3f64.powi(4), 20f64.exp2(), 40f64.exp2()],
        (-20..=20).map(|k| (2.0 * k as f64).exp2()).chain((-12..=12).map(|k| 3f64.powi(k))).collect());
    let nu = units.len();
    ctx.par("perspective-scene-sizes", n * nu, |i, s| {
        let u = units[i % nu];
        let v = vol(i / nu, nf, u);
        s.case(|| name(&v), |c| wide::perspective(c, &v, false, u));
    });
    ctx.par("orthographic-scene-sizes", n * nu, |i, s| {
        let u = units[i % nu];
        let v = vol(i / nu, nf, u);
        s.case(|| name(&v), |c| wide::orthographic(c, &v, false, u));
    });
    let units32: Vec<f64> = ctx.pick(vec![1.0, (-12f64).exp2(), 3f64.powi(5), 12f64.exp2()], (-6..=6).map(|k| (2.0 * k as f64).exp2()).chain((-6..=6).map(|k| 3f64.powi(k))).collect());
    let nu32 = units32.len();
    ctx.par("perspective-f32", k.pow(4) * nf32.len() * nu32, |i, s| {
        let u = units32[i % nu32];
        let v = vol(i / nu32, nf32, u).map(|x| x as f32 as f64);
        s.case(|| name(&v), |c| narrow::perspective(c, &v, false, u));
    });
    ctx.par("orthographic-f32", k.pow(4) * nf32.len() * nu32, |i, s| {
        let u = units32[i % nu32];
        let v = vol(i / nu32, nf32, u).map(|x| x as f32 as f64);
        s.case(|| name(&v), |c| narrow::orthographic(c, &v, false, u));
    });
    // Extreme shapes: ratios of far to near up to 2^40, nearly equal planes, nearly and exactly centred ones.
    let ratios: Vec<f64> = ctx.pick(vec![-20, -10, -7, -4, -1, 0, 1, 4, 7, 10, 14, 17, 20, 24, 30, 40], (-40..=40).collect())
        .into_iter().map(|k: i32| 1.0 + (k as f64).exp2()).collect();
    let offs: Vec<f64> = ctx.pick(vec![0, 1, 4, 10, 20, 28, 34], (0..=40).collect()).into_iter().map(|k: i32| (-k as f64).exp2()).chain([0.0]).collect();
    ctx.par("extreme-shapes", ratios.len() * offs.len(), |i, s| {
        let (k, o) = (ratios[i % ratios.len()], offs[i / ratios.len()]);
        for near in [1.0, 0.375, 48.0] { for w in [1.0, 0.625, 4096.0, 1.0 / 4096.0] { for g in [1.0, -1.0] {
            let v = [w, w * (1.0 + g * o / 2.0), w * 3.0, w * 3.0 * (1.0 - g * o * 0.75), near, near * k];
            s.case(|| name(&v), |c| wide::extreme(c, &v));
            let v = v.map(|x| x as f32 as f64);
            if v[5] > v[4] { s.case(|| format!("f32 {}", name(&v)), |c| narrow::extreme(c, &v)); }
        } } }
    });
    ctx.section("extreme-angles", |s| for deg in [1e-6, 1e-4, 0.001, 0.01, 0.05, 0.1, 0.5, 1.0, 2.0, 45.0, 90.0, 91.0, 120.0, 170.0, 178.0, 179.0, 179.9, 179.99] {
        for ar in [1.0, 0.5, 16.0, 0.001, 1000.0, 1.75] { for near in [1.0, 0.125, 48.0] { for &k in &ratios {
            s.case(|| format!("vfov {deg} aspect {ar} near {near} far {}", near * k), |c| wide::extreme_angle(c, deg, ar, near, near * k));
            let (ar, far) = (ar as f32 as f64, (near * k) as f32 as f64);
            if far > near { s.case(|| format!("f32 vfov {deg} aspect {ar} near {near} far {far}"), |c| narrow::extreme_angle(c, deg, ar, near, far)); }
        } } }
    });
    // Volumes whose width, height and depth are one half, one and two, and just beside those.
    ctx.bound("volumes whose width, height, depth and planes lie beside one half, one and two (off by 0, 1e-6, -3e-5), all combinations");
    ctx.par("beside-special-sizes", 3usize.pow(6), |i, s| {
        let pick = |k: usize| i / 3usize.pow(k as u32) % 3;
        let (w, h, z) = ([0.5, 1.0, 2.0][pick(0)], [0.5, 1.0, 2.0][pick(1)], [0.5, 1.0, 2.0][pick(2)]);
        let off = |k: usize| [0.0, 1.0e-6, -3.0e-5][pick(k)];
        for near in [0.5, 1.0, 1.0 + 2.0e-6, 2.0] {
            for share in [0.5, 0.25] {
                let v = [w * share, w * (1.0 - share) + off(3), h * share, h * (1.0 - share) + off(4), near, near + z + off(5)];
                s.case(|| name(&v), |c| { wide::perspective(c, &v, false, 1.0); wide::orthographic(c, &v, false, 1.0); });
            }
        }
    });
    let step = ctx.pick(5, 1);
    ctx.bound("points with coordinates of every size from 1e-7 to 1e7, beside the planes and behind the eye, in six volumes, each coordinate judged by the size of its terms");
    let shapes: [[f64; 6]; 6] = [[4.0, 4.0, 3.0, 3.0, 1.0, 16.0], [1.0, 3.0, 2.0, 0.5, 0.5, 64.0], [0.25, 0.5, 1.0, 0.125, 2.0, 3.0], [8.0, 1.0, 1.0, 16.0, 0.0625, 1024.0], [1.0, 1.0, 1.0, 1.0, 1.0, 3.0], [3.0, 1.0, 1.0, 3.0, 8.0, 12.0]];
    let sizes: Vec<f64> = [0.0, 1e-7, 3e-5, 1e-3, 0.375, 1.0, 1.0 + 3e-5, 1.0 - 2e-6, 2.0 - 1e-5, 17.0, 1300.0, 2.5e5, 1e7].iter().flat_map(|x| if *x == 0.0 { vec![0.0] } else { vec![*x, -*x] }).collect();
    let ns = sizes.len();
    ctx.par("points-of-every-size", ns.pow(3), |i, s| {
        let q = [sizes[i % ns], sizes[i / ns % ns], sizes[i / ns / ns]];
        if i % ctx.pick(5, 1) != 0 { return; }
        for v in &shapes {
            s.case(|| format!("{q:?} in {v:?}"), |c| wide::sizes(c, v, &q));
            s.case(|| format!("f32 {q:?} in {v:?}"), |c| narrow::sizes(c, v, &q));
        }
    });
    ctx.par("points-beside-the-planes", shapes.len(), |i, s| {
        let v = &shapes[i];
        let hs = [0.0, 1e-3, -1e-3, 3e-5, -3e-5, 2e-6, -2e-6, 1e-8, -1e-8];
        for a in [-v[0], v[1], 0.0] { for b in [-v[2], v[3], 0.0] { for d in [-v[4], -v[5], -(v[4] + v[5]) / 2.0] {
            for h in hs { for g in hs { for e in hs {
                if h != g && g != e && h != e && !ctx.thorough() { continue; }
                let z = d * (1.0 + e);
                for k in [1.0, -z / v[4]] {
                    let q = [(a + h) * k, (b + g) * k, z];
                    s.case(|| format!("{q:?} in {v:?}"), |c| wide::sizes(c, v, &q));
                    s.case(|| format!("f32 {q:?} in {v:?}"), |c| narrow::sizes(c, v, &q));
                }
            } } }
        } } }
    });
    ctx.section("field-of-view", |s| {
        let mut d = 5;
        while d <= 175 {
            for ar in [1.0, 16.0 / 9.0, 0.75, 2.0, 0.2] {
                for unit in [1.0, (-20f64).exp2(), 20f64.exp2()] {
                    for (near, far) in nf {
                        s.case(|| format!("vfov {d} aspect {ar} near {near} far {far} unit {unit}"), |c| {
                            wide::field_of_view(c, d as f64, ar, *near * unit, *far * unit, unit);
                        });
                    }
                    if (20..=150).contains(&d) {
                        for (near, far) in nf32 {
                            s.case(|| format!("f32 vfov {d} aspect {ar} near {near} far {far} unit {unit}"), |c| {
                                narrow::field_of_view(c, d as f64, ar, *near * unit, *far * unit, unit);
                            });
                        }
                    }
                }
            }
            d += step;
        }
    });
    ctx.finish();
}
