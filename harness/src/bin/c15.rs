//! C15: geometric matrix constructors perform the documented geometric map.
use cglinalg_core::*;
use cglinalg_trigonometry::{Degrees, Radians};
use cglmc::*;

type F3<'a> = &'a dyn Fn([f64; 3]) -> [f64; 3];
type F2<'a> = &'a dyn Fn([f64; 2]) -> [f64; 2];

/// The homogeneous matrix (by columns) of an affine map given as a function on points.
fn hom3(f: F3) -> [[f64; 4]; 4] {
    let o = f([0.0; 3]);
    let mut m = [[0.0; 4]; 4];
    for j in 0..3 {
        let mut e = [0.0; 3];
        e[j] = 1.0;
        let p = f(e);
        for i in 0..3 {
            m[j][i] = p[i] - o[i];
        }
    }
    m[3] = [o[0], o[1], o[2], 1.0];
    m
}
fn hom2(f: F2) -> [[f64; 3]; 3] {
    let o = f([0.0; 2]);
    let mut m = [[0.0; 3]; 3];
    for j in 0..2 {
        let mut e = [0.0; 2];
        e[j] = 1.0;
        let p = f(e);
        for i in 0..2 {
            m[j][i] = p[i] - o[i];
        }
    }
    m[2] = [o[0], o[1], 1.0];
    m
}
fn lin3(f: F3) -> [[f64; 3]; 3] {
    let m = hom3(f);
    [[m[0][0], m[0][1], m[0][2]], [m[1][0], m[1][1], m[1][2]], [m[2][0], m[2][1], m[2][2]]]
}
fn lin2(f: F2) -> [[f64; 2]; 2] {
    let m = hom2(f);
    [[m[0][0], m[0][1]], [m[1][0], m[1][1]]]
}
const PTS3: [[f64; 3]; 4] = [[1.0, 2.0, 3.0], [-4.0, 0.5, 7.0], [0.0, -6.0, 2.0], [5.0, -1.0, -2.5]];
const PTS2: [[f64; 2]; 4] = [[1.0, 2.0], [-4.0, 0.5], [0.0, -6.0], [5.0, -1.0]];

/// Entries, and the image of points and vectors through the library's own products.
fn check4(c: &mut Case, op: &str, m: Matrix4x4<f64>, f: F3, tol: f64) {
    c.close(op, m, hom3(f), tol);
    for p in PTS3 {
        let w = f(p);
        let o = f([0.0; 3]);
        c.close(op, m * Vector4::new(p[0], p[1], p[2], 1.0), [w[0], w[1], w[2], 1.0], tol);
        c.close(op, m * Vector4::new(p[0], p[1], p[2], 0.0), [w[0] - o[0], w[1] - o[1], w[2] - o[2], 0.0], tol);
    }
}
fn check3(c: &mut Case, op: &str, m: Matrix3x3<f64>, f: F3, tol: f64) {
    c.close(op, m, lin3(f), tol);
    for p in PTS3 {
        c.close(op, m * Vector3::from(p), f(p), tol);
    }
}
fn check3h(c: &mut Case, op: &str, m: Matrix3x3<f64>, f: F2, tol: f64) {
    c.close(op, m, hom2(f), tol);
    for p in PTS2 {
        let w = f(p);
        let o = f([0.0; 2]);
        c.close(op, m * Vector3::new(p[0], p[1], 1.0), [w[0], w[1], 1.0], tol);
        c.close(op, m * Vector3::new(p[0], p[1], 0.0), [w[0] - o[0], w[1] - o[1], 0.0], tol);
    }
}
fn check2(c: &mut Case, op: &str, m: Matrix2x2<f64>, f: F2, tol: f64) {
    c.close(op, m, lin2(f), tol);
    for p in PTS2 {
        c.close(op, m * Vector2::from(p), f(p), tol);
    }
}
fn u3(d: &[f64; 3]) -> Unit<Vector3<f64>> {
    Unit::from_value_unchecked(Vector3::from(*d))
}
fn u2(d: &[f64; 2]) -> Unit<Vector2<f64>> {
    Unit::from_value_unchecked(Vector2::from(*d))
}
fn u3s(d: &[f64; 3]) -> Unit<Vector3<f32>> {
    Unit::from_value_unchecked(Vector3::from(d.map(|x| x as f32)))
}
fn u2s(d: &[f64; 2]) -> Unit<Vector2<f32>> {
    Unit::from_value_unchecked(Vector2::from(d.map(|x| x as f32)))
}
const T: f64 = 1e-12;
const T32: f64 = 1e-5;

fn rotations(c: &mut Case, u: &[f64; 3], t: f64, tdeg: f64) {
    // the definition: decompose along the axis, turn the perpendicular part in its own plane
    let f = |p: [f64; 3]| {
        let h = model::scale(u, model::dot(u, &p));
        let e1 = model::sub(&p, &h);
        let e2 = model::cross(u, &p);
        model::add(&h, &model::add(&model::scale(&e1, t.cos()), &model::scale(&e2, t.sin())))
    };
    let a = u3(u);
    let m3 = Matrix3x3::from_axis_angle(&a, Radians(t));
    check3(c, "from_axis_angle", m3, &f, T);
    check3(c, "from_axis_angle degrees", Matrix3x3::from_axis_angle(&a, Degrees(tdeg)), &f, T);
    check4(c, "from_affine_axis_angle", Matrix4x4::from_affine_axis_angle(&a, Radians(t)), &f, T);
    check4(c, "from_affine_axis_angle degrees", Matrix4x4::from_affine_axis_angle(&a, Degrees(tdeg)), &f, T);
    c.close("proper", model::det(&model::from_cols(m3.as_ref())), 1.0, T);
    c.close("orthogonal", m3 * m3.transpose(), model::ident::<3>(), T);
    c.close("opposite axis and angle", Matrix3x3::from_axis_angle(&u3(&u.map(|x| -x)), Radians(-t)), lin3(&f), T);
    let w = lin3(&f);
    c.close("f32 from_axis_angle", Matrix3x3::from_axis_angle(&u3s(u), Radians(t as f32)), w, T32);
    c.close("f32 from_affine_axis_angle", Matrix4x4::from_affine_axis_angle(&u3s(u), Radians(t as f32)), hom3(&f), T32);
    c.close("f32 from_axis_angle degrees", Matrix3x3::from_axis_angle(&u3s(u), Degrees(tdeg as f32)), w, T32);
    c.close("f32 from_affine_axis_angle degrees", Matrix4x4::from_affine_axis_angle(&u3s(u), Degrees(tdeg as f32)), hom3(&f), T32);
    for k in 0..3 {
        let mut e = [0.0; 3];
        e[k] = 1.0;
        if *u == e {
            let g: [fn(f64) -> Matrix3x3<f64>; 3] =
                [|t| Matrix3x3::from_angle_x(Radians(t)), |t| Matrix3x3::from_angle_y(Radians(t)), |t| Matrix3x3::from_angle_z(Radians(t))];
            let gd: [fn(f64) -> Matrix3x3<f64>; 3] =
                [|t| Matrix3x3::from_angle_x(Degrees(t)), |t| Matrix3x3::from_angle_y(Degrees(t)), |t| Matrix3x3::from_angle_z(Degrees(t))];
            let h: [fn(f64) -> Matrix4x4<f64>; 3] = [
                |t| Matrix4x4::from_affine_angle_x(Radians(t)),
                |t| Matrix4x4::from_affine_angle_y(Radians(t)),
                |t| Matrix4x4::from_affine_angle_z(Radians(t)),
            ];
            let hd: [fn(f64) -> Matrix4x4<f64>; 3] = [
                |t| Matrix4x4::from_affine_angle_x(Degrees(t)),
                |t| Matrix4x4::from_affine_angle_y(Degrees(t)),
                |t| Matrix4x4::from_affine_angle_z(Degrees(t)),
            ];
            let s: [fn(f32) -> Matrix3x3<f32>; 3] =
                [|t| Matrix3x3::from_angle_x(Radians(t)), |t| Matrix3x3::from_angle_y(Radians(t)), |t| Matrix3x3::from_angle_z(Radians(t))];
            let s4: [fn(f32) -> Matrix4x4<f32>; 3] = [
                |t| Matrix4x4::from_affine_angle_x(Radians(t)),
                |t| Matrix4x4::from_affine_angle_y(Radians(t)),
                |t| Matrix4x4::from_affine_angle_z(Radians(t)),
            ];
            let sd: [fn(f32) -> Matrix3x3<f32>; 3] =
                [|t| Matrix3x3::from_angle_x(Degrees(t)), |t| Matrix3x3::from_angle_y(Degrees(t)), |t| Matrix3x3::from_angle_z(Degrees(t))];
            let s4d: [fn(f32) -> Matrix4x4<f32>; 3] = [
                |t| Matrix4x4::from_affine_angle_x(Degrees(t)),
                |t| Matrix4x4::from_affine_angle_y(Degrees(t)),
                |t| Matrix4x4::from_affine_angle_z(Degrees(t)),
            ];
            c.close("f32 from_angle_{x,y,z} degrees", sd[k](tdeg as f32), w, T32);
            c.close("f32 from_affine_angle_{x,y,z} degrees", s4d[k](tdeg as f32), hom3(&f), T32);
            check3(c, "from_angle_{x,y,z}", g[k](t), &f, T);
            check3(c, "from_angle_{x,y,z} degrees", gd[k](tdeg), &f, T);
            check4(c, "from_affine_angle_{x,y,z}", h[k](t), &f, T);
            check4(c, "from_affine_angle_{x,y,z} degrees", hd[k](tdeg), &f, T);
            c.close("f32 from_angle_{x,y,z}", s[k](t as f32), w, T32);
            c.close("f32 from_affine_angle_{x,y,z}", s4[k](t as f32), hom3(&f), T32);
        }
    }
}

/// A coordinate shear along axis `a` proportional to axis `b` by `k`.
fn one_shear<A: Flat, B: Flat>(c: &mut Case, a: usize, b: usize, k: f64, m: A, h: B) {
    let mut w: [[f64; 4]; 4] = model::ident();
    w[b][a] = k;
    c.eq("affine coordinate shear", h, w);
    let mut w: [[f64; 3]; 3] = model::ident();
    w[b][a] = k;
    c.eq("coordinate shear", m, w);
}

fn main() {
    let ctx = Ctx::start("C15");
    let full = ctx.thorough();
    ctx.bound("rotations: every direction of the grid x every angle from -400 to 400 degrees in steps of 20 (thorough 5) plus small angles; plane rotations in steps of 1 degree");
    ctx.bound("reflections: every normal x every bias point of a 5-value lattice; shears: every direction x 8 perpendicular normals x 6 factors x origins; coordinate shears over 9 factors in f64, f32 and i32");
    ctx.bound("scales and translations: all tuples over 7 values in dimensions 1 to 3");
    let dirs = grid::directions3(full);
    let mut degs: Vec<f64> = Vec::new();
    let mut d = -400;
    while d <= 400 {
        degs.push(d as f64);
        d += ctx.grade(20, 5, 1);
    }
    degs.extend([1.0, -1.0, 45.0, 90.0, -90.0, 270.0, 0.001, -0.001, 1e-7, 179.999, 89.5, 33.0]);
    ctx.par("rotations-3d", dirs.len(), |i, s| {
        for d in &degs {
            s.case(|| format!("axis {:?} angle {d} deg", dirs[i]), |c| rotations(c, &dirs[i], grid::deg(*d), *d));
        }
    });
    ctx.section("rotations-2d", |s| {
        for k in -720..=720 {
            let d = k as f64;
            let t = grid::deg(d);
            s.case(|| format!("angle {d} deg"), |c| {
                let f = |p: [f64; 2]| {
                    let r = p[0].hypot(p[1]);
                    let a = p[1].atan2(p[0]) + t;
                    [r * a.cos(), r * a.sin()]
                };
                check2(c, "from_angle", Matrix2x2::from_angle(Radians(t)), &f, T);
                check2(c, "from_angle degrees", Matrix2x2::from_angle(Degrees(d)), &f, T);
                check3h(c, "from_affine_angle", Matrix3x3::from_affine_angle(Radians(t)), &f, T);
                check3h(c, "from_affine_angle degrees", Matrix3x3::from_affine_angle(Degrees(d)), &f, T);
                c.close("f32 from_angle", Matrix2x2::from_angle(Radians(t as f32)), lin2(&f), T32);
                c.close("f32 from_affine_angle", Matrix3x3::from_affine_angle(Radians(t as f32)), hom2(&f), T32);
                c.close("f32 from_angle degrees", Matrix2x2::from_angle(Degrees(d as f32)), lin2(&f), T32);
                c.close("f32 from_affine_angle degrees", Matrix3x3::from_affine_angle(Degrees(d as f32)), hom2(&f), T32);
            });
        }
    });
    let lat: &[f64] = ctx.pick(&[0.0, 1.0, -2.0, 3.5], &[0.0, 1.0, -2.0, 3.5, -7.0, 0.125]);
    let k = lat.len();
    ctx.par("reflections-3d", dirs.len(), |i, s| {
        let n = dirs[i];
        for j in 0..k * k * k {
            let b: [f64; 3] = grid::tuple(lat, j);
            s.case(|| format!("normal {n:?} bias {b:?}"), |c| {
                let f = |p: [f64; 3]| model::sub(&p, &model::scale(&n, 2.0 * model::dot(&n, &model::sub(&p, &b))));
                let m = Matrix4x4::from_affine_reflection(&u3(&n), &Point3::from(b));
                check4(c, "from_affine_reflection", m, &f, T);
                c.close("involution", m * m, model::ident::<4>(), 1e-10);
                c.close("mirror point fixed", m * Vector4::new(b[0], b[1], b[2], 1.0), [b[0], b[1], b[2], 1.0], T);
                let sb = Point3::from(b.map(|x| x as f32));
                c.close("f32", Matrix4x4::from_affine_reflection(&u3s(&n), &sb), hom3(&f), T32);
                if j == 0 {
                    let m = Matrix3x3::from_reflection(&u3(&n));
                    check3(c, "from_reflection", m, &f, T);
                    c.close("f32 from_reflection", Matrix3x3::from_reflection(&u3s(&n)), lin3(&f), T32);
                    c.close("involution", m * m, model::ident::<3>(), 1e-10);
                    c.close("normal flipped", m * Vector3::from(n), n.map(|x| -x), T);
                }
            });
        }
    });
    let dirs2 = grid::directions2(true);
    ctx.section("reflections-2d", |s| {
        for n in &dirs2 {
            for j in 0..k * k {
                let b: [f64; 2] = grid::tuple(lat, j);
                s.case(|| format!("normal {n:?} bias {b:?}"), |c| {
                    let f = |p: [f64; 2]| model::sub(&p, &model::scale(n, 2.0 * model::dot(n, &model::sub(&p, &b))));
                    let m = Matrix3x3::from_affine_reflection(&u2(n), &Point2::from(b));
                    check3h(c, "from_affine_reflection", m, &f, T);
                    c.close("involution", m * m, model::ident::<3>(), 1e-10);
                    c.close("f32", Matrix3x3::from_affine_reflection(&u2s(n), &Point2::from(b.map(|x| x as f32))), hom2(&f), T32);
                    let m = Matrix2x2::from_reflection(&u2(n));
                    let g = |p: [f64; 2]| model::sub(&p, &model::scale(n, 2.0 * model::dot(n, &p)));
                    check2(c, "from_reflection", m, &g, T);
                    c.close("f32 from_reflection", Matrix2x2::from_reflection(&u2s(n)), lin2(&g), T32);
                });
            }
        }
    });
    let fs: &[f64] = &[0.0, 1.0, -1.0, 2.0, -3.5, 0.25, 10.0, -0.5, 128.0];
    ctx.par("shears-3d", dirs.len(), |i, s| {
        let d = dirs[i];
        // eight normals in the plane perpendicular to the direction
        let seed = if d[0].abs() < 0.5 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
        let e1 = model::unit(&model::cross(&d, &seed));
        let e2 = model::cross(&d, &e1);
        for q in 0..8 {
            let a = q as f64 * std::f64::consts::FRAC_PI_4 + 0.1 * (q % 3) as f64;
            let n = model::add(&model::scale(&e1, a.cos()), &model::scale(&e2, a.sin()));
            for f0 in fs {
                for o in [[0.0, 0.0, 0.0], [1.0, -2.0, 3.0], [-4.0, 0.0, 0.5], [0.0, 6.0, -1.0]] {
                    let g = |p: [f64; 3]| model::add(&p, &model::scale(&d, f0 * model::dot(&n, &model::sub(&p, &o))));
                    s.case(|| format!("factor {f0} origin {o:?} direction {d:?} normal {n:?}"), |c| {
                        check4(c, "from_affine_shear", Matrix4x4::from_affine_shear(*f0, &Point3::from(o), &u3(&d), &u3(&n)), &g, T);
                        c.close(
                            "f32 from_affine_shear",
                            Matrix4x4::from_affine_shear(*f0 as f32, &Point3::from(o.map(|x| x as f32)), &u3s(&d), &u3s(&n)),
                            hom3(&g),
                            T32 * 4.0,
                        );
                        if o == [0.0; 3] {
                            check3(c, "from_shear", Matrix3x3::from_shear(*f0, &u3(&d), &u3(&n)), &g, T);
                            c.close("f32 from_shear", Matrix3x3::from_shear(*f0 as f32, &u3s(&d), &u3s(&n)), lin3(&g), T32);
                        }
                    });
                }
            }
        }
    });
    ctx.section("shears-2d", |s| {
        for d in &dirs2 {
            for n in [[-d[1], d[0]], [d[1], -d[0]]] {
                for f0 in fs {
                    for o in [[0.0, 0.0], [1.0, -2.0], [-4.0, 0.0], [0.0, 6.0], [0.5, 3.0]] {
                        let g = |p: [f64; 2]| model::add(&p, &model::scale(d, f0 * model::dot(&n, &model::sub(&p, &o))));
                        s.case(|| format!("factor {f0} origin {o:?} direction {d:?} normal {n:?}"), |c| {
                            check3h(c, "from_affine_shear", Matrix3x3::from_affine_shear(*f0, &Point2::from(o), &u2(d), &u2(&n)), &g, T);
                            c.close(
                                "f32 from_affine_shear",
                                Matrix3x3::from_affine_shear(*f0 as f32, &Point2::from(o.map(|x| x as f32)), &u2s(d), &u2s(&n)),
                                hom2(&g),
                                T32 * 4.0,
                            );
                            if o == [0.0; 2] {
                                check2(c, "from_shear", Matrix2x2::from_shear(*f0, &u2(d), &u2(&n)), &g, T);
                                c.close("f32 from_shear", Matrix2x2::from_shear(*f0 as f32, &u2s(d), &u2s(&n)), lin2(&g), T32);
                            }
                        });
                    }
                }
            }
        }
    });
    ctx.bound("reflections and shears with normals and directions 1e-9 to 3e-2 off the axes and diagonals, factors beside 0 and 1 and equal to components, each entry judged by its own size");
    // directions a little off the axes and diagonals, factors beside 0 and 1 and equal to components
    let offs: &[f64] = ctx.pick(&[3e-4, 2e-6, 5e-8], &[3e-2, 3e-4, 2e-6, 7e-7, 5e-8, 1e-9]);
    let mut near2: Vec<[f64; 2]> = vec![[0.6, 0.8], [-0.8, 0.6], [0.5, 0.75f64.sqrt()]];
    let mut near3: Vec<[f64; 3]> = vec![[0.6, 0.8, 0.0], [0.0, -0.6, 0.8], [0.5, 0.5, 0.5f64.sqrt()], [0.36, 0.48, 0.8], [-0.5, 0.5f64.sqrt(), 0.5]];
    for &e in offs {
        for q in 0..8 {
            for e in [e, -e] {
                let a = q as f64 * std::f64::consts::FRAC_PI_4 + e;
                near2.push([a.cos(), a.sin()]);
            }
        }
        for k in 0..3 {
            for (x, y, z) in [(1.0, e, -0.5 * e), (-1.0, 3.0 * e, e), (1.0, 1.0 + e, 0.0), (1.0, -1.0, e), (1.0, 0.0, -1.0 + e), (1.0, 1.0, 1.0 + e)] {
                let mut v = [0.0; 3];
                v[k] = x;
                v[(k + 1) % 3] = y;
                v[(k + 2) % 3] = z;
                near3.push(model::unit(&v));
            }
        }
    }
    ctx.bound("rotations by angles 0.5 to 1e-7 degrees beside multiples of 30 degrees about the grid's axes and about axes beside special ones");
    let (axes, fine) = (dirs.iter().step_by(ctx.pick(3, 1)).chain(near3.iter()).copied().collect::<Vec<_>>(), [0.5, 3e-3, 4e-5, 2e-7]);
    ctx.par("rotations-beside-special", axes.len(), |i, s| {
        for a in (-180..=180).step_by(ctx.pick(60, 30)).chain([90, -90, 270]) { for h in fine { for h in [h, -h] {
            let d = a as f64 + h;
            s.case(|| format!("axis {:?} angle {d} deg", axes[i]), |c| rotations(c, &axes[i], grid::deg(d), d));
        } } }
    });
    // every entry off the diagonal of the linear part is a bare product, so each is judged by its own size
    fn entry(c: &mut Case, op: &str, got: f64, want: f64, i: usize, j: usize) {
        if i != j {
            c.rel(op, got, want, 4e-15);
        } else {
            c.close(op, got, want, 1e-15 * 8.0);
        }
    }
    let near_f = |d: &[f64]| -> Vec<f64> {
        let mut v = vec![1.0 + 1e-5, 1.0 - 1e-6, -1.0 - 3e-5, 2.0 + 4e-5, -2.0 + 1e-6, 4.0 - 3e-5, 1e-5, -3e-7, 2e-10, 1e-20, 4000.0, 1e9, -3.0];
        v.extend(d.iter().copied());
        v.extend(d.iter().map(|x| -x));
        v
    };
    ctx.section("beside-special-2d", |s| {
        for n in &near2 {
            s.case(|| format!("reflection in the mirror with normal {n:?}"), |c| {
                let m = Matrix2x2::from_reflection(&u2(n));
                for j in 0..2 {
                    for i in 0..2 {
                        let w = if i == j { 1.0 } else { 0.0 } - 2.0 * n[i] * n[j];
                        entry(c, "from_reflection", m[j][i], w, i, j);
                    }
                }
                for b in [[0.0, 0.0], [1.0, 1.0 + 1e-5], [n[0], n[1]], [-n[0], n[0]], [n[1], n[0]], [0.5, -1.0], [1e-6, 1e7], [1e9, -3.0], [0.0, 1e-9], [0.5 / n[0], 0.0], [n[1], -n[1]]] {
                    if b.iter().any(|x| !x.is_finite()) {
                        continue;
                    }
                    let m = Matrix3x3::from_affine_reflection(&u2(n), &Point2::from(b));
                    for j in 0..2 {
                        for i in 0..2 {
                            let w = if i == j { 1.0 } else { 0.0 } - 2.0 * n[i] * n[j];
                            entry(c, "from_affine_reflection", m[j][i], w, i, j);
                        }
                    }
                    let (d, a) = (model::dot(n, &b), (n[0] * b[0]).abs() + (n[1] * b[1]).abs());
                    for i in 0..2 {
                        c.scaled("from_affine_reflection offset", m[2][i], 2.0 * n[i] * d, 2.0 * n[i].abs() * a, 4e-15);
                    }
                }
            });
            for d in [[-n[1], n[0]], [n[1], -n[0]]] {
                for f in near_f(&d) {
                    s.case(|| format!("factor {f} direction {d:?} normal {n:?}"), |c| {
                        let m = Matrix2x2::from_shear(f, &u2(&d), &u2(n));
                        for o in [[0.0, 0.0], [1.0, -2.0], [n[0], -n[1]], [1e8, 3.0], [1e-9, 0.0], [0.5, 1.0]] {
                            let h = Matrix3x3::from_affine_shear(f, &Point2::from(o), &u2(&d), &u2(n));
                            let (e, a) = (model::dot(n, &o), (n[0] * o[0]).abs() + (n[1] * o[1]).abs());
                            for j in 0..2 {
                                for i in 0..2 {
                                    let w = if i == j { 1.0 } else { 0.0 } + f * d[i] * n[j];
                                    entry(c, "from_shear", m[j][i], w, i, j);
                                    entry(c, "from_affine_shear", h[j][i], w, i, j);
                                }
                                c.scaled("from_affine_shear offset", h[2][j], -f * d[j] * e, (f * d[j]).abs() * a, 4e-15);
                            }
                        }
                    });
                }
            }
        }
    });
    ctx.par("beside-special-3d", near3.len(), |q, s| {
        let n = &near3[q];
        s.case(|| format!("reflection in the mirror with normal {n:?}"), |c| {
            let l = Matrix3x3::from_reflection(&u3(n));
            for b in [[0.0, 0.0, 0.0], [1.0, 1.0 + 1e-5, -2.0], [n[0], n[1], n[2]], [-n[0], n[2], n[1]], [n[1], n[0], -n[2]], [0.5, -1.0, 1e-9], [1e-6, 1e7, 3.0], [1e9, -3.0, 1.0], [-1e-9, 0.0, 1e8]] {
                let m = Matrix4x4::from_affine_reflection(&u3(n), &Point3::from(b));
                let (d, a) = (model::dot(n, &b), (n[0] * b[0]).abs() + (n[1] * b[1]).abs() + (n[2] * b[2]).abs());
                for j in 0..3 {
                    for i in 0..3 {
                        let w = if i == j { 1.0 } else { 0.0 } - 2.0 * n[i] * n[j];
                        entry(c, "from_reflection", l[j][i], w, i, j);
                        entry(c, "from_affine_reflection", m[j][i], w, i, j);
                    }
                    c.scaled("from_affine_reflection offset", m[3][j], 2.0 * n[j] * d, 2.0 * n[j].abs() * a, 4e-15);
                }
            }
        });
        let seed = if n[0].abs() < 0.5 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
        let e1 = model::unit(&model::cross(n, &seed));
        let e2 = model::cross(n, &e1);
        for r in 0..ctx.pick(4, 12) {
            let a = [0.0, 1e-6, 0.8, std::f64::consts::FRAC_PI_2 + 1e-4, 2.0, 3.0, -0.7, -2.0, 1e-3, 3.14159, -1.57, 1.2][r];
            let d = model::unit(&model::add(&model::scale(&e1, a.cos()), &model::scale(&e2, a.sin())));
            for f in near_f(&d) {
                s.case(|| format!("factor {f} direction {d:?} normal {n:?}"), |c| {
                    let m = Matrix3x3::from_shear(f, &u3(&d), &u3(n));
                    for o in [[0.0, 0.0, 0.0], [1.0, -2.0, 3.0], [n[0], -n[1], n[2]], [1e8, 3.0, -1.0], [1e-9, 0.0, 2.0], [0.5, 1.0, 0.5]] {
                        let h = Matrix4x4::from_affine_shear(f, &Point3::from(o), &u3(&d), &u3(n));
                        let (e, a) = (model::dot(n, &o), (n[0] * o[0]).abs() + (n[1] * o[1]).abs() + (n[2] * o[2]).abs());
                        for j in 0..3 {
                            for i in 0..3 {
                                let w = if i == j { 1.0 } else { 0.0 } + f * d[i] * n[j];
                                entry(c, "from_shear", m[j][i], w, i, j);
                                entry(c, "from_affine_shear", h[j][i], w, i, j);
                            }
                            c.scaled("from_affine_shear offset", h[3][j], -f * d[j] * e, (f * d[j]).abs() * a, 4e-15);
                        }
                    }
                });
            }
        }
    });
    ctx.section("coordinate-shears", |s| {
        for f0 in fs {
            let k = *f0;
            s.case(|| format!("factor {k}"), |c| {
                // along axis a proportionally to axis b
                let along3 = |a: usize, b: usize| move |p: [f64; 3]| {
                    let mut q = p;
                    q[a] += k * p[b];
                    q
                };
                let along2 = |a: usize, b: usize| move |p: [f64; 2]| {
                    let mut q = p;
                    q[a] += k * p[b];
                    q
                };
                macro_rules! sh3 { ($($a:literal $b:literal $f:ident $g:ident;)*) => {$(
                    check3(c, stringify!($f), Matrix3x3::$f(k), &along3($a, $b), 0.0);
                    check4(c, stringify!($g), Matrix4x4::$g(k), &along3($a, $b), 0.0);
                    c.eq("f32", Matrix3x3::$f(k as f32), lin3(&along3($a, $b)));
                    c.eq("f32", Matrix4x4::$g(k as f32), hom3(&along3($a, $b)));
                    if k.fract() == 0.0 {
                        c.eq("i32", Matrix3x3::$f(k as i32), lin3(&along3($a, $b)));
                        c.eq("i32", Matrix4x4::$g(k as i32), hom3(&along3($a, $b)));
                    }
                )*}; }
                sh3!(0 1 from_shear_xy from_affine_shear_xy; 0 2 from_shear_xz from_affine_shear_xz; 1 0 from_shear_yx from_affine_shear_yx;
                     1 2 from_shear_yz from_affine_shear_yz; 2 0 from_shear_zx from_affine_shear_zx; 2 1 from_shear_zy from_affine_shear_zy;);
                check2(c, "from_shear_xy", Matrix2x2::from_shear_xy(k), &along2(0, 1), 0.0);
                check2(c, "from_shear_yx", Matrix2x2::from_shear_yx(k), &along2(1, 0), 0.0);
                check3h(c, "from_affine_shear_xy", Matrix3x3::from_affine_shear_xy(k), &along2(0, 1), 0.0);
                check3h(c, "from_affine_shear_yx", Matrix3x3::from_affine_shear_yx(k), &along2(1, 0), 0.0);
                if k.fract() == 0.0 {
                    c.eq("i32", Matrix2x2::from_shear_xy(k as i32), lin2(&along2(0, 1)));
                    c.eq("i32", Matrix2x2::from_shear_yx(k as i32), lin2(&along2(1, 0)));
                    c.eq("i32", Matrix3x3::from_affine_shear_xy(k as i32), hom2(&along2(0, 1)));
                    c.eq("i32", Matrix3x3::from_affine_shear_yx(k as i32), hom2(&along2(1, 0)));
                }
            });
        }
    });
    let vs: &[f64] = &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 64.0];
    ctx.section("scales-translations-3d", |s| {
        for i in 0..343 {
            let v: [f64; 3] = grid::tuple(vs, i);
            s.case(|| format!("{v:?}"), |c| {
                let sc = |p: [f64; 3]| [p[0] * v[0], p[1] * v[1], p[2] * v[2]];
                let us = |p: [f64; 3]| p.map(|x| x * v[0]);
                let tr = |p: [f64; 3]| model::add(&p, &v);
                let lv = Vector3::from(v);
                check4(c, "from_affine_nonuniform_scale", Matrix4x4::from_affine_nonuniform_scale(&lv), &sc, 0.0);
                check3(c, "from_nonuniform_scale", Matrix3x3::from_nonuniform_scale(&lv), &sc, 0.0);
                check4(c, "from_affine_scale", Matrix4x4::from_affine_scale(v[0]), &us, 0.0);
                check3(c, "from_scale", Matrix3x3::from_scale(v[0]), &us, 0.0);
                check4(c, "from_affine_translation", Matrix4x4::from_affine_translation(&lv), &tr, 0.0);
                // the cross-product matrix
                for p in PTS3 {
                    c.eq("cross_matrix", Matrix3x3::cross_matrix(&lv) * Vector3::from(p), model::cross(&v, &p));
                }
                c.eq("f32 cross_matrix", Matrix3x3::cross_matrix(&Vector3::from(v.map(|x| x as f32))), Matrix3x3::cross_matrix(&lv));
                c.eq("f32 translation", Matrix4x4::from_affine_translation(&Vector3::from(v.map(|x| x as f32))), hom3(&tr));
                c.eq("f32 scale", Matrix4x4::from_affine_nonuniform_scale(&Vector3::from(v.map(|x| x as f32))), hom3(&sc));
                if v.iter().all(|x| x.fract() == 0.0) {
                    let iv = Vector3::from(v.map(|x| x as i32));
                    c.eq("i32 translation", Matrix4x4::from_affine_translation(&iv), hom3(&tr));
                    c.eq("i32 scale", Matrix4x4::from_affine_nonuniform_scale(&iv), hom3(&sc));
                    c.eq("i32 cross_matrix", Matrix3x3::cross_matrix(&iv), Matrix3x3::cross_matrix(&lv));
                }
            });
        }
    });
    ctx.section("scales-translations-2d", |s| {
        for i in 0..49 {
            let v: [f64; 2] = grid::tuple(vs, i);
            s.case(|| format!("{v:?}"), |c| {
                let sc = |p: [f64; 2]| [p[0] * v[0], p[1] * v[1]];
                let us = |p: [f64; 2]| p.map(|x| x * v[0]);
                let tr = |p: [f64; 2]| model::add(&p, &v);
                let lv = Vector2::from(v);
                check3h(c, "from_affine_nonuniform_scale", Matrix3x3::from_affine_nonuniform_scale(&lv), &sc, 0.0);
                check2(c, "from_nonuniform_scale", Matrix2x2::from_nonuniform_scale(&lv), &sc, 0.0);
                check3h(c, "from_affine_scale", Matrix3x3::from_affine_scale(v[0]), &us, 0.0);
                check2(c, "from_scale", Matrix2x2::from_scale(v[0]), &us, 0.0);
                check3h(c, "from_affine_translation", Matrix3x3::from_affine_translation(&lv), &tr, 0.0);
                let v1 = Vector1::new(v[0]);
                c.eq("1d translation", Matrix2x2::from_affine_translation(&v1), [[1.0, 0.0], [v[0], 1.0]]);
                c.eq("1d scale", Matrix2x2::from_affine_nonuniform_scale(&v1), [[v[0], 0.0], [0.0, 1.0]]);
                c.eq("1d uniform scale", Matrix2x2::from_affine_scale(v[0]), [[v[0], 0.0], [0.0, 1.0]]);
                c.eq("1d plain scale", Matrix1x1::from_scale(v[0]), [[v[0]]]);
            });
        }
    });
    // lengths in units of z (exact powers of two): scales, translations, reflections, shears
    let exps: Vec<i32> = ctx.pick(vec![-40, -20, -8, 8, 20, 40], (-60..=60).step_by(5).collect());
    ctx.bound(&format!("translations, scales, biases, shear factors and origins rescaled by 2^e, e in {exps:?} (half the exponent in f32)"));
    macro_rules! rescaled {
        ($name:literal, $t:ident, $half:literal, $tol:literal) => {
            ctx.par($name, dirs.len(), |i, s| {
                let un = |m: Matrix4x4<$t>, l: f64, t: f64| -> [[f64; 4]; 4] { core::array::from_fn(|q| core::array::from_fn(|p| m[q][p] as f64 / if p == 3 { 1.0 } else if q == 3 { t } else { l })) };
                let un3 = |m: Matrix3x3<$t>, l: f64, t: f64| -> [[f64; 3]; 3] { core::array::from_fn(|q| core::array::from_fn(|p| m[q][p] as f64 / if p == 2 { 1.0 } else if q == 2 { t } else { l })) };
                let n = dirs[i];
                let a3 = |v: [f64; 3], k: f64| v.map(|x| (x * k) as $t);
                let a2 = |v: [f64; 2], k: f64| v.map(|x| (x * k) as $t);
                let seed = if n[0].abs() < 0.5 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
                let m = model::unit(&model::cross(&n, &seed));
                let un_n = Unit::from_value_unchecked(Vector3::from(a3(n, 1.0)));
                let un_m = Unit::from_value_unchecked(Vector3::from(a3(m, 1.0)));
                let ang = 0.37 * i as f64;
                let (n2, m2) = ([ang.cos(), ang.sin()], [-ang.sin(), ang.cos()]);
                let un_n2 = Unit::from_value_unchecked(Vector2::from(a2(n2, 1.0)));
                let un_m2 = Unit::from_value_unchecked(Vector2::from(a2(m2, 1.0)));
                for &e in &exps {
                    let z = 2f64.powi(if $half { e / 2 } else { e });
                    for b in [[1.0, -2.0, 3.0], [-0.5, 7.0, 0.0], [0.0, 0.0, 5.0]] {
                        let b2 = [b[0], b[1]];
                        s.case(|| format!("2^{e} direction {n:?} lengths {b:?}"), |c| {
                            let f = |p: [f64; 3]| model::sub(&p, &model::scale(&n, 2.0 * model::dot(&n, &model::sub(&p, &b))));
                            c.close("from_affine_reflection", un(Matrix4x4::from_affine_reflection(&un_n, &Point3::from(a3(b, z))), 1.0, z), hom3(&f), $tol);
                            let f = |p: [f64; 2]| model::sub(&p, &model::scale(&n2, 2.0 * model::dot(&n2, &model::sub(&p, &b2))));
                            c.close("plane from_affine_reflection", un3(Matrix3x3::from_affine_reflection(&un_n2, &Point2::from(a2(b2, z))), 1.0, z), hom2(&f), $tol);
                            let k = -1.5;
                            let f = |p: [f64; 3]| model::add(&p, &model::scale(&n, k * model::dot(&m, &model::sub(&p, &b))));
                            c.close("from_affine_shear", un(Matrix4x4::from_affine_shear(k as $t, &Point3::from(a3(b, z)), &un_n, &un_m), 1.0, z), hom3(&f), $tol);
                            let f = |p: [f64; 2]| model::add(&p, &model::scale(&n2, k * model::dot(&m2, &model::sub(&p, &b2))));
                            c.close("plane from_affine_shear", un3(Matrix3x3::from_affine_shear(k as $t, &Point2::from(a2(b2, z)), &un_n2, &un_m2), 1.0, z), hom2(&f), $tol);
                            // shear factors of any size: the displacement is the factor times the unit one
                            let kz = k * z;
                            let g = |p: [f64; 3]| model::scale(&n, kz * model::dot(&m, &p));
                            let mut w: [[f64; 4]; 4] = [[0.0; 4]; 4];
                            let mut w3 = [[0.0; 3]; 3];
                            for q in 0..3 {
                                let mut u = [0.0; 3];
                                u[q] = 1.0;
                                let d = g(u);
                                for p in 0..3 {
                                    w[q][p] = d[p] + u[p];
                                    w3[q][p] = w[q][p];
                                }
                            }
                            w[3][3] = 1.0;
                            c.close("from_affine_shear factor", Matrix4x4::from_affine_shear(kz as $t, &Point3::origin(), &un_n, &un_m), w, $tol);
                            c.close("from_shear factor", Matrix3x3::from_shear(kz as $t, &un_n, &un_m), w3, $tol);
                            // exact ones
                            let v = b.map(|x| x * z);
                            let lv = Vector3::from(a3(b, z));
                            c.eq("translation", Matrix4x4::from_affine_translation(&lv), [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [v[0], v[1], v[2], 1.0]]);
                            c.eq("nonuniform scale", Matrix4x4::from_affine_nonuniform_scale(&lv), [[v[0], 0.0, 0.0, 0.0], [0.0, v[1], 0.0, 0.0], [0.0, 0.0, v[2], 0.0], [0.0, 0.0, 0.0, 1.0]]);
                            c.eq("linear nonuniform scale", Matrix3x3::from_nonuniform_scale(&lv), [[v[0], 0.0, 0.0], [0.0, v[1], 0.0], [0.0, 0.0, v[2]]]);
                            c.eq("scale", Matrix4x4::from_affine_scale(v[1] as $t), [[v[1], 0.0, 0.0, 0.0], [0.0, v[1], 0.0, 0.0], [0.0, 0.0, v[1], 0.0], [0.0, 0.0, 0.0, 1.0]]);
                            c.eq("linear scale", Matrix3x3::from_scale(v[1] as $t), [[v[1], 0.0, 0.0], [0.0, v[1], 0.0], [0.0, 0.0, v[1]]]);
                            c.eq("cross matrix", Matrix3x3::cross_matrix(&lv), [[0.0, v[2], -v[1]], [-v[2], 0.0, v[0]], [v[1], -v[0], 0.0]]);
                            let l2 = Vector2::from(a2(b2, z));
                            c.eq("plane translation", Matrix3x3::from_affine_translation(&l2), [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [v[0], v[1], 1.0]]);
                            c.eq("plane nonuniform scale", Matrix3x3::from_affine_nonuniform_scale(&l2), [[v[0], 0.0, 0.0], [0.0, v[1], 0.0], [0.0, 0.0, 1.0]]);
                            c.eq("plane linear nonuniform scale", Matrix2x2::from_nonuniform_scale(&l2), [[v[0], 0.0], [0.0, v[1]]]);
                            c.eq("plane scale", Matrix3x3::from_affine_scale(v[0] as $t), [[v[0], 0.0, 0.0], [0.0, v[0], 0.0], [0.0, 0.0, 1.0]]);
                            c.eq("plane linear scale", Matrix2x2::from_scale(v[0] as $t), [[v[0], 0.0], [0.0, v[0]]]);
                            c.eq("line translation", Matrix2x2::from_affine_translation(&Vector1::new(v[0] as $t)), [[1.0, 0.0], [v[0], 1.0]]);
                            c.eq("line scale", Matrix2x2::from_affine_scale(v[0] as $t), [[v[0], 0.0], [0.0, 1.0]]);
                            one_shear(c, 0, 1, v[0], Matrix3x3::from_shear_xy(v[0] as $t), Matrix4x4::from_affine_shear_xy(v[0] as $t));
                            one_shear(c, 0, 2, v[0], Matrix3x3::from_shear_xz(v[0] as $t), Matrix4x4::from_affine_shear_xz(v[0] as $t));
                            one_shear(c, 1, 0, v[0], Matrix3x3::from_shear_yx(v[0] as $t), Matrix4x4::from_affine_shear_yx(v[0] as $t));
                            one_shear(c, 1, 2, v[0], Matrix3x3::from_shear_yz(v[0] as $t), Matrix4x4::from_affine_shear_yz(v[0] as $t));
                            one_shear(c, 2, 0, v[0], Matrix3x3::from_shear_zx(v[0] as $t), Matrix4x4::from_affine_shear_zx(v[0] as $t));
                            one_shear(c, 2, 1, v[0], Matrix3x3::from_shear_zy(v[0] as $t), Matrix4x4::from_affine_shear_zy(v[0] as $t));
                            c.eq("plane from_shear_xy", Matrix2x2::from_shear_xy(v[0] as $t), [[1.0, 0.0], [v[0], 1.0]]);
                            c.eq("plane from_shear_yx", Matrix2x2::from_shear_yx(v[0] as $t), [[1.0, v[0]], [0.0, 1.0]]);
                            c.eq("plane from_affine_shear_xy", Matrix3x3::from_affine_shear_xy(v[0] as $t), [[1.0, 0.0, 0.0], [v[0], 1.0, 0.0], [0.0, 0.0, 1.0]]);
                            c.eq("plane from_affine_shear_yx", Matrix3x3::from_affine_shear_yx(v[0] as $t), [[1.0, v[0], 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]);
                        });
                    }
                }
            });
        };
    }
    rescaled!("rescaled-f64", f64, false, 1e-12);
    rescaled!("rescaled-f32", f32, true, 2e-5);
    ctx.bound("uniform homogeneous scales and plain scales of sizes 1 to 9");
    ctx.section("scales-of-every-size", |s| {
        macro_rules! n { ($($N:literal)*) => {$(
            for k in [2.0, -3.0, 0.5, 0.0, 1.0, 1048576.0] {
                s.case(|| format!("size {} by {k}", $N), |c| {
                    let mut w = [[0.0; $N]; $N];
                    for i in 0..$N { w[i][i] = k; }
                    c.eq("from_scale", Matrix::<f64, $N, $N>::from_scale(k), w);
                    c.eq("f32 from_scale", Matrix::<f32, $N, $N>::from_scale(k as f32), w);
                    let mut v = [0.0; $N];
                    for i in 0..$N { v[i] = k + i as f64; w[i][i] = v[i]; }
                    c.eq("from_nonuniform_scale", Matrix::<f64, $N, $N>::from_nonuniform_scale(&Vector::from(v)), w);
                    for i in 0..$N { w[i][i] = if i + 1 == $N { 1.0 } else { k }; }
                    c.eq("from_affine_scale", Matrix::<f64, $N, $N>::from_affine_scale(k), w);
                    for i in 0..$N { w[i][i] = if i + 1 == $N { 1.0 } else { 2.0 * k }; }
                    c.eq("i64 from_affine_scale", Matrix::<i64, $N, $N>::from_affine_scale((2.0 * k) as i64), w);
                });
            }
        )*}; }
        n!(1 2 3 4 5 6 7 8 9);
    });
    ctx.finish();
}
