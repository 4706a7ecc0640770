//! C19: quaternion, matrix and axis-angle forms of a rotation agree.
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
use cglmc::*;

/// The same rotation: equal up to sign.
fn up_to_sign(got: [f64; 4], want: &[f64; 4]) -> [f64; 4] {
    if model::dot(&got, want) < 0.0 {
        got.map(|x| -x)
    } else {
        got
    }
}
fn arr(q: &Quaternion<f64>) -> [f64; 4] {
    [q[0], q[1], q[2], q[3]]
}
fn aff(m: &model::M<3, 3>) -> [[f64; 4]; 4] {
    model::cols(&model::affine3(m, &[0.0; 3]))
}

fn main() {
    let ctx = Ctx::start("C19");
    let full = ctx.thorough();
    let dirs = grid::directions3(full);
    let step = ctx.grade(15, 5, 1);
    let mut angs = grid::angles(step, -720, 720);
    for d in [0.001, 0.1, 1.0, 179.0, 179.9, 181.0, 180.1, 359.0, 359.9, 119.0, 121.0, 120.0001] {
        angs.push(grid::deg(d));
        angs.push(grid::deg(-d));
    }
    const T: f64 = 1e-12;
    ctx.bound(&format!("{} axis directions x {} angles from -720 to 720 degrees in steps of {step} plus angles next to 0, 120, 180 and 360 degrees; every half turn axis", dirs.len(), angs.len()));
    ctx.par("axis-angle", dirs.len(), |i, s| {
        let u = dirs[i];
        let axis = Unit::from_value(Vector3::<f64>::from(u));
        for &t in &angs {
            s.case(|| format!("axis {u:?} angle {} deg", t.to_degrees()), |c| {
                let r = model::rot3(&u, t);
                let (sh, ch) = (t / 2.0).sin_cos();
                let want = [ch, u[0] * sh, u[1] * sh, u[2] * sh];
                let q = Quaternion::from_axis_angle(&axis, Radians(t));
                c.close("from_axis_angle(radians)", q, want, T);
                c.close("from_axis_angle(degrees)", Quaternion::from_axis_angle(&axis, Degrees(t.to_degrees())), want, T);
                c.close("unit length", q.norm(), 1.0, T);
                c.close("to_matrix", q.to_matrix(), model::cols(&r), T);
                let mut m3 = Matrix3x3::from_fill(7.0);
                q.to_matrix_mut(&mut m3);
                c.close("to_matrix_mut", m3, model::cols(&r), T);
                c.close("to_affine_matrix", q.to_affine_matrix(), aff(&r), T);
                let mut m4 = Matrix4x4::from_fill(7.0);
                q.to_affine_matrix_mut(&mut m4);
                c.close("to_affine_matrix_mut", m4, aff(&r), T);
                c.close("Matrix3x3::from(q)", Matrix3x3::from(q), model::cols(&r), T);
                c.close("Matrix3x3::from(&q)", Matrix3x3::from(&q), model::cols(&r), T);
                c.close("Matrix4x4::from(q)", Matrix4x4::from(q), aff(&r), T);
                c.close("Matrix4x4::from(&q)", Matrix4x4::from(&q), aff(&r), T);
                c.close("Matrix3x3::from_axis_angle", Matrix3x3::from_axis_angle(&axis, Radians(t)), model::cols(&r), T);
                c.close("Rotation3::from_quaternion", Rotation3::from_quaternion(&q), model::cols(&r), T);
                c.close("Rotation3::from(q)", Rotation3::from(q), model::cols(&r), T);
                c.close("Rotation3::from(&q)", Rotation3::from(&q), model::cols(&r), T);
                c.close("Rotation3::from_axis_angle", Rotation3::from_axis_angle(&axis, Radians(t)), model::cols(&r), T);
                for v in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [2.0, -3.0, 5.0]] {
                    let p = Quaternion::from_pure(Vector3::from(v));
                    let w = model::mv(&r, &v);
                    c.close("q v q^-1", q * p * q.inverse(), [0.0, w[0], w[1], w[2]], T);
                    c.close("matrix v", q.to_matrix() * Vector3::from(v), w, T);
                }
                // back from the matrix
                let m = Matrix3x3::<f64>::from(model::cols(&r));
                let conv = 2e-12;
                for (n, back) in [
                    ("from_matrix", Quaternion::from_matrix(&m)),
                    ("Quaternion::from(m)", Quaternion::from(m)),
                    ("Quaternion::from(&m)", Quaternion::from(&m)),
                    ("Quaternion::from(rotation)", Quaternion::from(Rotation3::from_axis_angle(&axis, Radians(t)))),
                    ("Quaternion::from(&rotation)", Quaternion::from(&Rotation3::from_axis_angle(&axis, Radians(t)))),
                    ("from_matrix(to_matrix)", Quaternion::from_matrix(&q.to_matrix())),
                ] {
                    c.close(n, up_to_sign(arr(&back), &want), want, conv);
                    c.close("round trip matrix", back.to_matrix(), model::cols(&r), conv);
                }
            });
        }
    });
    // Half turns, and turns close to them, about axes next to the coordinate axes and planes: every
    // branch of the conversion and the ties between them.
    let mut near: Vec<[f64; 3]> = Vec::new();
    for p in 0..3 {
        for q in 0..3 {
            for sg in [1.0, -1.0] {
                for e in 1..=ctx.pick(8, 12) {
                    let d = sg * 10f64.powi(-e);
                    if p != q {
                        let mut a = [0.0; 3];
                        a[p] = 1.0;
                        a[q] = d;
                        near.push(model::unit(&a));
                        // two nearly equal components
                        let mut a = [0.0; 3];
                        a[p] = 1.0;
                        a[q] = sg * (1.0 + d);
                        near.push(model::unit(&a));
                        let mut a = [d; 3];
                        a[p] = 1.0;
                        a[q] = 1.0 + d;
                        near.push(model::unit(&a));
                    }
                }
            }
        }
    }
    let nang = [180.0, 179.999, 180.001, 179.0, 181.0, 170.0, 190.0, -180.0, 120.0, 119.9, 120.1, 90.0, 150.0];
    ctx.bound(&format!("near ties: {} axes next to the coordinate axes and diagonals x angles {nang:?}", near.len()));
    ctx.par("near-ties", near.len(), |i, s| {
        let u = near[i];
        for d in nang {
            s.case(|| format!("axis {u:?} angle {d} deg"), |c| {
                let t = grid::deg(d);
                let r = model::rot3(&u, t);
                let (sh, ch) = (t / 2.0).sin_cos();
                let want = [ch, u[0] * sh, u[1] * sh, u[2] * sh];
                let m = Matrix3x3::<f64>::from(model::cols(&r));
                let q = Quaternion::from_matrix(&m);
                c.close("from_matrix", up_to_sign(arr(&q), &want), want, 2e-12);
                c.close("round trip matrix", q.to_matrix(), model::cols(&r), 2e-12);
                c.close("Quaternion::from(&rotation)", up_to_sign(arr(&Quaternion::from(&Rotation3::from_axis_angle(&Unit::from_value(Vector3::from(u)), Radians(t)))), &want), want, 2e-12);
                let m = Matrix3x3::<f32>::from(model::cols(&r).map(|v| v.map(|x| x as f32)));
                let q = Quaternion::<f32>::from_matrix(&m);
                c.close("f32 from_matrix", up_to_sign([q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64], &want), want, 4e-6);
            });
        }
    });
    // Quaternions beside the identity, the axis half turns and quarter turns and the third turns, with
    // one or two components off by a little: each entry to the size of its own terms, so that a small
    // component lost or snapped shows.
    let mut bases: Vec<[f64; 4]> = Vec::new();
    for p in 0..4 {
        let mut a = [0.0; 4];
        a[p] = 1.0;
        bases.push(a);
        for q in 0..p {
            for sg in [1.0, -1.0] {
                let mut a = [0.0; 4];
                a[p] = 1.0;
                a[q] = sg;
                bases.push(a);
            }
        }
    }
    bases.push([1.0, 1.0, 1.0, 1.0]);
    bases.push([-1.0, 1.0, -1.0, 1.0]);
    let offs: Vec<f64> = ctx.pick(vec![1e-3, 1e-5, 1e-7, 1e-9, 1e-12], vec![1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-11, 1e-12, 1e-15]);
    ctx.bound(&format!("beside special rotations: {} quaternions, one or two components off by the sizes {offs:?}", bases.len()));
    ctx.par("beside-special", bases.len() * offs.len(), |i, s| {
        let b = bases[i / offs.len()];
        let e = offs[i % offs.len()];
        for code in 0..81usize {
            let d = [code % 3, code / 3 % 3, code / 9 % 3, code / 27].map(|x| x as f64 - 1.0);
            let off = d.iter().filter(|x| **x != 0.0).count();
            if off == 0 || off > 2 {
                continue;
            }
            for (first, second) in [(e, e), (e, e * 37.0)] {
                let mut k = 0;
                let mut a = b;
                for j in 0..4 {
                    if d[j] != 0.0 {
                        a[j] += d[j] * if k == 0 { first } else { second };
                        k += 1;
                    }
                }
                s.case(|| format!("{a:?}"), |c| {
                    let n = a.iter().map(|x| x * x).sum::<f64>();
                    let h = 2.0 / n;
                    let (qs, v) = (a[0], [a[1], a[2], a[3]]);
                    // want[col][row] and the size of the terms of each entry
                    let mut want = [[0.0; 3]; 3];
                    let mut size = [[1.0; 3]; 3];
                    for col in 0..3 {
                        for row in 0..3 {
                            if col == row {
                                let (p, q) = ((row + 1) % 3, (row + 2) % 3);
                                want[col][row] = 1.0 - h * (v[p] * v[p] + v[q] * v[q]);
                            } else {
                                let third = 3 - col - row;
                                let sg = if (col + 1) % 3 == row { 1.0 } else { -1.0 };
                                want[col][row] = h * (v[col] * v[row]) + sg * (h * (qs * v[third]));
                                size[col][row] = h * (f64::abs(v[col] * v[row]) + f64::abs(qs * v[third]));
                            }
                        }
                    }
                    let q = Quaternion::<f64>::from(a);
                    let mut m3 = Matrix3x3::from_fill(7.0);
                    q.to_matrix_mut(&mut m3);
                    let mut m4 = Matrix4x4::from_fill(7.0);
                    q.to_affine_matrix_mut(&mut m4);
                    let (o3, o4) = (q.to_matrix(), q.to_affine_matrix());
                    for col in 0..3 {
                        for row in 0..3 {
                            let (w, z) = (want[col][row], size[col][row]);
                            c.scaled("to_matrix", o3[col][row], w, z, 1e-14);
                            c.scaled("to_matrix_mut", m3[col][row], w, z, 1e-14);
                            c.scaled("to_affine_matrix", o4[col][row], w, z, 1e-14);
                            c.scaled("to_affine_matrix_mut", m4[col][row], w, z, 1e-14);
                        }
                    }
                    let line = [m4[0][3], m4[1][3], m4[2][3], m4[3][0], m4[3][1], m4[3][2], m4[3][3], o4[0][3], o4[1][3], o4[2][3], o4[3][0], o4[3][1], o4[3][2], o4[3][3]];
                    c.eq("affine border", line, [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0]);
                    // Back: beside the identity the vector part comes from differences of small entries,
                    // beside a half turn the other parts from sums of them.
                    let r = n.sqrt();
                    let u = a.map(|x| x / r);
                    let m = Matrix3x3::<f64>::from(want);
                    let back = up_to_sign(arr(&Quaternion::from_matrix(&m)), &u);
                    c.close("from_matrix", back, u, 1e-14);
                    // the largest component, and what divides the others
                    let big = (0..4).max_by(|x, y| u[*x].abs().total_cmp(&u[*y].abs())).unwrap();
                    if u[big].abs() > 0.99 {
                        for j in 0..4 {
                            if j == big {
                                continue;
                            }
                            // component j is read from the two entries that hold u[big] * u[j]
                            let (x, y) = match (big, j) {
                                (0, j) => (j % 3, (j + 1) % 3),
                                (p, 0) => (p % 3, (p + 1) % 3),
                                (p, q) => (p - 1, q - 1),
                            };
                            c.scaled("from_matrix, a small component", back[j], u[j], size[x][y] + size[y][x], 1e-14);
                        }
                    }
                });
            }
        }
    });
    // Products.
    let pd = grid::directions3(full);
    let pa: Vec<f64> = [30.0, 90.0, 135.0, 180.0, 240.0, -60.0].iter().map(|d| grid::deg(*d)).collect();
    ctx.bound(&format!("products: all ordered pairs of {} rotations", pd.len() * pa.len()));
    ctx.par("products", pd.len() * pa.len(), |i, s| {
        let n = pa.len();
        let mk = |k: usize| (pd[k / n], pa[k % n]);
        let (u, t) = mk(i);
        let q1 = Quaternion::from_axis_angle(&Unit::from_value(Vector3::<f64>::from(u)), Radians(t));
        let r1 = model::rot3(&u, t);
        for j in 0..pd.len() * n {
            if !full && (i + j) % 3 != 0 {
                continue;
            }
            let (w, p) = mk(j);
            s.case(|| format!("({u:?}, {}) then after ({w:?}, {})", t.to_degrees(), p.to_degrees()), |c| {
                let q2 = Quaternion::from_axis_angle(&Unit::from_value(Vector3::<f64>::from(w)), Radians(p));
                let r = model::mul(&r1, &model::rot3(&w, p));
                c.close("matrix of the product", (q1 * q2).to_matrix(), model::cols(&r), T);
                c.close("product of the matrices", q1.to_matrix() * q2.to_matrix(), model::cols(&r), T);
                let qs = q1 * q2;
                let back = Quaternion::from_matrix(&(q1.to_matrix() * q2.to_matrix()));
                c.close("quaternion of the matrix product", up_to_sign(arr(&back), &arr(&qs)), qs, 2e-12);
            });
        }
    });
    // Arbitrary (not unit) quaternions: Euler-Rodrigues with 2 / norm^2, polar form, argument.
    let alpha: &[f64] = ctx.pick(&[0.0, 1.0, -2.0, 3.0, -0.5], &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 7.0]);
    let n = grid::count(alpha.len(), 4);
    ctx.bound(&format!("quaternions that are not unit: all over {alpha:?} at scales 2^-20, 1, 2^20"));
    ctx.par("any-length", n, |i, s| {
        let a: [f64; 4] = grid::tuple(alpha, i);
        if a == [0.0; 4] {
            return;
        }
        let na = model::norm(&a);
        let u = a.map(|x| x / na);
        let r = model::qmat(&u);
        for k in [1.0, 1.0 / 1048576.0, 1048576.0] {
            s.case(|| format!("{k} * {a:?}"), |c| {
                let q = Quaternion::<f64>::from(a.map(|x| x * k));
                c.close("to_matrix", q.to_matrix(), model::cols(&r), T);
                let mut m3 = Matrix3x3::from_fill(7.0);
                q.to_matrix_mut(&mut m3);
                c.close("to_matrix_mut", m3, model::cols(&r), T);
                c.close("to_affine_matrix", q.to_affine_matrix(), aff(&r), T);
                let mut m4 = Matrix4x4::from_fill(7.0);
                q.to_affine_matrix_mut(&mut m4);
                c.close("to_affine_matrix_mut", m4, aff(&r), T);
                let nv = model::norm(&[a[1], a[2], a[3]]);
                let arg = nv.atan2(a[0]);
                c.close("arg", q.arg(), arg, T);
                let (norm, half, axis) = q.polar_decomposition();
                c.close("polar norm", norm / k, na, T);
                if nv != 0.0 {
                    c.close("polar axis", axis.map(|v| v.into_inner()), Some([a[1] / nv, a[2] / nv, a[3] / nv]), T);
                    // The returned angle is the half angle of the rotation (as in the documented example).
                    c.close("polar half angle", half, arg, T);
                    if let Some(v) = axis {
                        let back = Quaternion::from_polar_decomposition(norm, half * 2.0, &v);
                        c.close("polar form rebuilds the quaternion", back.map(|x| x / k), a, T);
                    }
                } else {
                    c.truth("a real quaternion has no axis", axis.is_none());
                }
            });
        }
    });
    ctx.section("polar-zero", |s| {
        s.case(|| "zero".into(), |c| {
            let (n, a, x) = Quaternion::<f64>::zero().polar_decomposition();
            c.eq("norm", n, 0.0);
            c.eq("angle", a, 0.0);
            c.truth("no axis", x.is_none());
            c.close("arg of zero is documented as pi/2", Quaternion::<f64>::zero().arg(), core::f64::consts::FRAC_PI_2, T);
        });
    });
    ctx.par("from-polar", dirs.len(), |i, s| {
        let u = dirs[i];
        let axis = Unit::from_value(Vector3::<f64>::from(u));
        for &t in &angs {
            for k in [1.0, 2.5, 0.0009765625] {
                s.case(|| format!("{k} axis {u:?} angle {}", t.to_degrees()), |c| {
                    let (sh, ch) = (t / 2.0).sin_cos();
                    let q = Quaternion::from_polar_decomposition(k, Radians(t), &axis);
                    c.close("from_polar_decomposition", q.map(|x| x / k), [ch, u[0] * sh, u[1] * sh, u[2] * sh], T);
                });
            }
        }
    });
    ctx.par("f32", dirs.len(), |i, s| {
        let u = dirs[i];
        let axis = Unit::from_value(Vector3::new(u[0] as f32, u[1] as f32, u[2] as f32));
        for &t in &angs {
            s.case(|| format!("f32 axis {u:?} angle {}", t.to_degrees()), |c| {
                let q = Quaternion::<f32>::from_axis_angle(&axis, Radians(t as f32));
                let r = model::rot3(&u, (t as f32) as f64);
                c.close("to_matrix", q.to_matrix(), model::cols(&r), 2e-6);
                c.close("to_affine_matrix", q.to_affine_matrix(), aff(&r), 2e-6);
                let b = Quaternion::<f32>::from_matrix(&q.to_matrix());
                c.close("round trip", b.to_matrix(), model::cols(&r), 4e-6);
                let t = (t as f32) as f64;
                let (sh, ch) = (t / 2.0).sin_cos();
                let want = [ch, u[0] * sh, u[1] * sh, u[2] * sh];
                c.close("from_axis_angle", q, want, 2e-6);
                let mut m3 = Matrix3x3::<f32>::from_fill(7.0);
                q.to_matrix_mut(&mut m3);
                c.close("to_matrix_mut", m3, model::cols(&r), 2e-6);
                let mut m4 = Matrix4x4::<f32>::from_fill(7.0);
                q.to_affine_matrix_mut(&mut m4);
                c.close("to_affine_matrix_mut", m4, aff(&r), 2e-6);
                c.close("Matrix3x3::from(q)", (Matrix3x3::from(q), Matrix3x3::from(&q)), (model::cols(&r), model::cols(&r)), 2e-6);
                c.close("Matrix4x4::from(q)", (Matrix4x4::from(q), Matrix4x4::from(&q)), (aff(&r), aff(&r)), 2e-6);
                let m = Matrix3x3::<f32>::from(model::cols(&r).map(|v| v.map(|x| x as f32)));
                for (n, back) in [("from_matrix", Quaternion::from_matrix(&m)), ("Quaternion::from(m)", Quaternion::from(m)), ("Quaternion::from(&m)", Quaternion::from(&m))] {
                    let z = [back[0] as f64, back[1] as f64, back[2] as f64, back[3] as f64];
                    c.close(n, up_to_sign(z, &want), want, 4e-6);
                }
                for k in [1.0 / 4096.0, 4096.0] {
                    let big = Quaternion::<f32>::new(q[0] * k, q[1] * k, q[2] * k, q[3] * k);
                    c.close("to_matrix of any length", big.to_matrix(), model::cols(&r), 2e-6);
                    c.close("to_affine_matrix of any length", big.to_affine_matrix(), aff(&r), 2e-6);
                    let kk = k as f64;
                    c.scaled("from_polar_decomposition", Quaternion::from_polar_decomposition(k, Radians(t as f32), &axis), want.map(|x| x * kk), kk, 4e-6);
                    let (n, half, ax) = big.polar_decomposition();
                    c.rel("polar norm", n, kk, 2e-6);
                    let nv = sh.abs();
                    c.close("polar half angle", half, nv.atan2(ch), 2e-3);
                    if nv > 0.1 {
                        c.close("polar half angle", half, nv.atan2(ch), 4e-6);
                        c.close("polar axis", ax.map(|v| v.into_inner()), Some(u.map(|x| x * sh.signum())), 4e-5);
                    }
                }
            });
        }
    });
    ctx.assume("the angle of polar_decomposition is the half angle, as in its documented example");
    ctx.finish();
}
