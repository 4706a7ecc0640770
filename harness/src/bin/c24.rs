//! C24: Euler angles.
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
use cglmc::*;

fn aff(m: &model::M<3, 3>) -> [[f64; 4]; 4] {
    model::cols(&model::affine3(m, &[0.0; 3]))
}
fn xyz(x: f64, y: f64, z: f64) -> model::M<3, 3> {
    let rx = model::rot3(&[1.0, 0.0, 0.0], x);
    let ry = model::rot3(&[0.0, 1.0, 0.0], y);
    let rz = model::rot3(&[0.0, 0.0, 1.0], z);
    model::mul(&model::mul(&rx, &ry), &rz)
}

macro_rules! forms {
    ($c:ident, $t:ident, $d:expr, $tol:expr) => {{
        let d: [f64; 3] = $d;
        let tol: f64 = $tol;
        let r = d.map(|v| v.to_radians());
        let m = xyz(r[0], r[1], r[2]);
        let (w3, w4) = (model::cols(&m), aff(&m));
        let er = Euler::new(Radians(r[0] as $t), Radians(r[1] as $t), Radians(r[2] as $t));
        let ed = Euler::new(Degrees(d[0] as $t), Degrees(d[1] as $t), Degrees(d[2] as $t));
        macro_rules! unit {
            ($e:ident, $u:literal) => {
                $c.close(concat!("to_matrix ", $u), $e.to_matrix(), w3, tol);
                $c.close(concat!("to_affine_matrix ", $u), $e.to_affine_matrix(), w4, tol);
                $c.close(concat!("Matrix3x3::from(e) ", $u), Matrix3x3::from($e), w3, tol);
                $c.close(concat!("Matrix3x3::from(&e) ", $u), Matrix3x3::from(&$e), w3, tol);
                $c.close(concat!("Matrix4x4::from(e) ", $u), Matrix4x4::from($e), w4, tol);
                $c.close(concat!("Matrix4x4::from(&e) ", $u), Matrix4x4::from(&$e), w4, tol);
                $c.close(concat!("Matrix3x3::from_euler_angles ", $u), Matrix3x3::<$t>::from_euler_angles(&$e), w3, tol);
                $c.close(concat!("Matrix4x4::from_euler_angles ", $u), Matrix4x4::<$t>::from_euler_angles(&$e), w4, tol);
                let rot = Rotation3::<$t>::from_euler_angles(&$e);
                $c.close(concat!("Rotation3::from_euler_angles ", $u), rot.to_matrix(), w3, tol);
                $c.close(concat!("Rotation3::from(e) ", $u), Rotation3::<$t>::from($e).to_matrix(), w3, tol);
                $c.close(concat!("Rotation3::from(&e) ", $u), Rotation3::<$t>::from(&$e).to_matrix(), w3, tol);
                $c.close(concat!("rotation to_affine_matrix ", $u), rot.to_affine_matrix(), w4, tol);
            };
        }
        unit!(er, "(radians)");
        unit!(ed, "(degrees)");
        let rx = Rotation3::<$t>::from_angle_x(Radians(r[0] as $t));
        let ry = Rotation3::<$t>::from_angle_y(Radians(r[1] as $t));
        let rz = Rotation3::<$t>::from_angle_z(Radians(r[2] as $t));
        let prod = rx * ry * rz;
        $c.close("product of axis rotations", prod.to_matrix(), w3, tol);
        // the inverse direction, from matrices and quaternions
        let turn = |u: [$t; 3], a: f64| Quaternion::<$t>::from_axis_angle(&Unit::from_value(Vector3::from(u)), Radians(a as $t));
        let q = turn([1.0, 0.0, 0.0], r[0]) * turn([0.0, 1.0, 0.0], r[1]) * turn([0.0, 0.0, 1.0], r[2]);
        let back = [
            ("Rotation3::euler_angles of the Euler rotation", Rotation3::<$t>::from_euler_angles(&er).euler_angles()),
            ("Rotation3::euler_angles of the product", prod.euler_angles()),
            ("Rotation3::euler_angles of the quaternion's rotation", Rotation3::<$t>::from_quaternion(&q).euler_angles()),
            ("Euler::from(q)", Euler::<Radians<$t>>::from(q)),
            ("Euler::from(&q)", Euler::<Radians<$t>>::from(&q)),
            ("Euler::from(-q)", Euler::<Radians<$t>>::from(-q)),
        ];
        for (name, e) in back {
            let (a, b, g) = (e.x.0 as f64, e.y.0 as f64, e.z.0 as f64);
            $c.close(name, model::cols(&xyz(a, b, g)), w3, 16.0 * tol);
            $c.close("rebuilt by the library", e.to_matrix(), w3, 16.0 * tol);
            $c.truth_with("yaw within a quarter turn", b.abs() <= core::f64::consts::FRAC_PI_2 + 1e-6, || format!("{name}: {b}"));
            $c.truth_with("roll and pitch within a half turn", a.abs().max(g.abs()) <= core::f64::consts::PI + 1e-6, || format!("{name}: {a} {g}"));
            if r[1].cos() > 0.05 {
                // away from gimbal lock, with the yaw in its principal range, the angles themselves come back
                $c.close("roll direction", [a.sin(), a.cos()], [r[0].sin(), r[0].cos()], 400.0 * tol);
                $c.close("pitch direction", [g.sin(), g.cos()], [r[2].sin(), r[2].cos()], 400.0 * tol);
                $c.close("yaw direction", [b.sin(), b.cos()], [r[1].sin(), r[1].cos()], 400.0 * tol);
            }
        }
    }};
}

fn main() {
    let ctx = Ctx::start("C24");
    let step = ctx.grade(15, 10, 5);
    let mut rp: Vec<f64> = (-180 / step..=180 / step).map(|k| (k * step) as f64).collect();
    rp.extend([0.5, -1.0, 179.0, -179.5, 400.0, -725.0, 61.0]);
    let mut yaws = rp.clone();
    yaws.extend([45.0, 89.0, 89.9, 89.999, 89.99999, 90.00001, 91.0, -89.0, -89.9, -89.999, -89.99999, -90.00001, -91.0, 270.0, 450.0, 90.0, -90.0]);
    ctx.bound(&format!("all {}x{}x{} triples (roll, yaw, pitch) in steps of {step} degrees over a full turn plus angles beside 0, 90, 180 degrees and beyond a full turn; both units; f64 and f32", rp.len(), yaws.len(), rp.len()));
    ctx.par("f64", rp.len(), |i, s| {
        for &y in &yaws {
            for &z in &rp {
                let d = [rp[i], y, z];
                s.case(|| format!("roll, yaw, pitch = {d:?} degrees"), |c| forms!(c, f64, d, 1e-13));
            }
        }
    });
    ctx.par("f32", rp.len(), |i, s| {
        for &y in &yaws {
            for &z in &rp {
                let d = [rp[i], y, z];
                // single precision input angles are themselves rounded
                s.case(|| format!("roll, yaw, pitch = {d:?} degrees"), |c| forms!(c, f32, d, 4e-6));
            }
        }
    });
    // turns close to none, to the poles and to half a turn, in every combination
    let fine = [0.0, 0.01, -0.001, 1e-4, -1e-6, 89.99, -90.01, 89.9999, 179.999, -180.001, 30.0];
    ctx.bound(&format!("all triples over the fine offsets {fine:?} degrees"));
    ctx.par("fine-angles", fine.len(), |i, s| {
        for &y in &fine {
            for &z in &fine {
                let d = [fine[i], y, z];
                s.case(|| format!("roll, yaw, pitch = {d:?} degrees"), |c| {
                    forms!(c, f64, d, 1e-13);
                    forms!(c, f32, d, 4e-6);
                });
            }
        }
    });
    ctx.section("constructor", |s| {
        for i in 0..27 {
            let t: [f64; 3] = grid::tuple(&[0.0, 1.0, -2.0], i);
            s.case(|| format!("{t:?}"), |c| {
                let e = Euler::new(Degrees(t[0]), Degrees(t[1]), Degrees(t[2]));
                c.eq("fields", [e.x.0, e.y.0, e.z.0], t);
                c.same("is_zero", e.is_zero(), t == [0.0; 3]);
                let z: Euler<Radians<f64>> = Euler::zero();
                c.eq("zero", [z.x.0, z.y.0, z.z.0], [0.0; 3]);
                c.truth("zero is zero", z.is_zero());
            });
        }
    });
    ctx.finish();
}
