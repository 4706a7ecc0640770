//! C06: degrees and radians are the same angle; trigonometry and arithmetic agree across units.
use cglinalg_trigonometry::{Angle, Degrees, Radians};
use cglmc::*;

macro_rules! unit {
    ($ctx:ident, $name:literal, $A:ident, $t:ident, $full:expr, $vals:expr, $tol:expr) => {
        $ctx.section(concat!("arithmetic-", $name), |s| {
            let vals: &[$t] = $vals;
            for &a in vals { for &b in vals {
                s.case(|| format!("({a:?}, {b:?}) {}", $name), |c| {
                    let (x, y) = ($A(a), $A(b));
                    let sum = a + b;
                    c.eq("v+v", x + y, sum); c.eq("v+r", x + &y, sum); c.eq("r+v", &x + y, sum); c.eq("r+r", &x + &y, sum);
                    let d = a - b;
                    c.eq("v-v", x - y, d); c.eq("v-r", x - &y, d); c.eq("r-v", &x - y, d); c.eq("r-r", &x - &y, d);
                    let m = a * b;
                    c.eq("v*s", x * b, m); c.eq("r*s", &x * b, m);
                    if b != 0.0 {
                        let q = a / b; let r = a % b;
                        c.rel("v/s", x / b, q, $tol); c.rel("r/s", &x / b, q, $tol);
                        c.rel("v/v", x / y, q, $tol); c.rel("v/r", x / &y, q, $tol); c.rel("r/v", &x / y, q, $tol); c.rel("r/r", &x / &y, q, $tol);
                        c.eq("v%v", x % y, r); c.eq("v%r", x % &y, r); c.eq("r%v", &x % y, r); c.eq("r%r", &x % &y, r);
                        let mut z = x; z /= b; c.rel("/=", z, q, $tol);
                        let mut z = x; z %= y; c.eq("%=", z, r);
                    }
                    c.eq("-v", -x, -a); c.eq("-r", -&x, -a);
                    let mut z = x; z += y; c.eq("+=", z, sum);
                    let mut z = x; z -= y; c.eq("-=", z, d);
                    let mut z = x; z *= b; c.eq("*=", z, m);
                    c.same("==", x == y, a == b);
                    c.same("<", x < y, a < b);
                    c.same("partial_cmp", x.partial_cmp(&y), a.partial_cmp(&b));
                    c.same("is_zero", (x.is_zero(), Angle::is_zero(x)), (a == 0.0, a == 0.0));
                    c.same("is_finite", x.is_finite(), true);
                });
            } }
            s.case(|| "constants".into(), |c| {
                let f: $t = $full as $t;
                c.eq("zero", (<$A<$t> as Angle>::zero(), $A::<$t>::zero(), $A::<$t>::default()), [0.0, 0.0, 0.0]);
                c.close("full", <$A<$t>>::full_turn(), f, $tol);
                c.close("half", <$A<$t>>::full_turn_div_2(), f / 2.0, $tol);
                c.close("quarter", <$A<$t>>::full_turn_div_4(), f / 4.0, $tol);
                c.close("sixth", <$A<$t>>::full_turn_div_6(), f / 6.0, $tol);
                c.close("eighth", <$A<$t>>::full_turn_div_8(), f / 8.0, $tol);
                c.same("non-finite", $A($t::NAN).is_finite() || $A($t::INFINITY).is_finite(), false);
            });
        });
    };
}
macro_rules! trig {
    ($ctx:ident, $t:ident, $tol:expr, $step:expr) => {
        $ctx.section(concat!("units-agree-", stringify!($t)), |s| {
            let mut d4: i64 = -1440 * 4;
            while d4 <= 1440 * 4 {
                let d = d4 as f64 / 4.0;
                let r = d / 180.0 * std::f64::consts::PI;
                s.case(|| format!("{d} degrees"), |c| {
                    let dd = Degrees(d as $t);
                    let rr = Radians(r as $t);
                    c.close("degrees to radians", Radians::from(dd), r, $tol);
                    c.close("radians to degrees", Degrees::from(rr), d, $tol);
                    c.close("round trip", Degrees::from(Radians::from(dd)), d, $tol);
                    c.close("round trip", Radians::from(Degrees::from(rr)), r, $tol);
                    let (sn, cs) = (r.sin(), r.cos());
                    c.close("sin deg", dd.sin(), sn, $tol * 20.0);
                    c.close("cos deg", dd.cos(), cs, $tol * 20.0);
                    c.close("sin rad", rr.sin(), sn, $tol * 20.0);
                    c.close("cos rad", rr.cos(), cs, $tol * 20.0);
                    c.close("sin_cos deg", dd.sin_cos(), (sn, cs), $tol * 20.0);
                    c.close("sin_cos rad", rr.sin_cos(), (sn, cs), $tol * 20.0);
                    if cs.abs() > 0.01 {
                        c.close("tan deg", dd.tan(), sn / cs, $tol * 1e4);
                        c.close("tan rad", rr.tan(), sn / cs, $tol * 1e4);
                        c.close("sec deg", dd.sec(), 1.0 / cs, $tol * 1e4);
                        c.close("sec rad", rr.sec(), 1.0 / cs, $tol * 1e4);
                    }
                    if sn.abs() > 0.01 && cs.abs() > 0.01 {
                        c.close("cot deg", dd.cot(), cs / sn, $tol * 1e4);
                        c.close("cot rad", rr.cot(), cs / sn, $tol * 1e4);
                    }
                    if sn.abs() > 0.01 {
                        c.close("csc deg", dd.csc(), 1.0 / sn, $tol * 1e4);
                        c.close("csc rad", rr.csc(), 1.0 / sn, $tol * 1e4);
                    }
                });
                d4 += $step;
            }
        });
        $ctx.section(concat!("beside-special-angles-", stringify!($t)), |s| {
            for q in -48i32..=48 { for e in [2, 3, 5, 6, 7, 9] { for sg in [1.0, -1.0] {
                let d = q as f64 * 15.0 + sg * 10f64.powi(-e);
                s.case(|| format!("{d} degrees"), |c| {
                    let (dd, rr) = (Degrees(d as $t), Radians((d / 180.0 * std::f64::consts::PI) as $t));
                    // the reference starts from the angle as rounded to the scalar type
                    for (u, r, (sn, cs), both, tan) in [
                        ("degrees", (dd.0 as f64) / 180.0 * std::f64::consts::PI, (dd.sin(), dd.cos()), dd.sin_cos(), dd.tan()),
                        ("radians", rr.0 as f64, (rr.sin(), rr.cos()), rr.sin_cos(), rr.tan()),
                    ] {
                        c.close(u, (sn, cs), (r.sin(), r.cos()), $tol);
                        c.close(u, both, (r.sin(), r.cos()), $tol);
                        if r.cos().abs() > 0.05 { c.close(u, tan, r.tan(), $tol * 400.0); }
                    }
                    c.close("degrees to radians", Radians::from(dd), (dd.0 as f64) / 180.0 * std::f64::consts::PI, $tol);
                    c.close("radians to degrees", Degrees::from(rr), (rr.0 as f64) * 180.0 / std::f64::consts::PI, $tol);
                });
            } } }
            for x0 in [0.0, 0.5, -0.5, 0.7071067811865476, -0.7071067811865476, 0.8660254037844386, -0.8660254037844386, 0.9, -0.9] {
                for e in [2, 3, 5, 6, 7, 9] { for sg in [1.0, -1.0] {
                    let x = (x0 + sg * 10f64.powi(-e)) as $t;
                    s.case(|| format!("ratio {x:?}"), |c| {
                        let (xf, k) = (x as f64, 180.0 / std::f64::consts::PI);
                        c.close("asin", (Radians::<$t>::asin(x), Degrees::<$t>::asin(x)), (xf.asin(), xf.asin() * k), $tol * 10.0);
                        c.close("acos", (Radians::<$t>::acos(x), Degrees::<$t>::acos(x)), (xf.acos(), xf.acos() * k), $tol * 10.0);
                        let y = x * 2.0;
                        c.close("atan", (Radians::<$t>::atan(y), Degrees::<$t>::atan(y)), ((y as f64).atan(), (y as f64).atan() * k), $tol * 10.0);
                        let w = (y as f64).atan2(-1.0);
                        c.close("atan2", (Radians::<$t>::atan2(y, -1.0), Degrees::<$t>::atan2(y, -1.0)), (w, w * k), $tol * 10.0);
                    });
                } }
            }
        });
        $ctx.section(concat!("small-and-large-", stringify!($t)), |s| {
            for e in -40i32..=20 {
                for m in [1.0, -1.3, 1.7] {
                    let r = m * (e as f64).exp2();
                    s.case(|| format!("{r} radians"), |c| {
                        let x = r as $t;
                        let r = x as f64;
                        let rr = Radians(x);
                        let k = 180.0 / std::f64::consts::PI;
                        let e8 = 8.0 * <$t>::EPSILON as f64;
                        c.rel("radians to degrees", Degrees::from(rr), r * k, e8);
                        c.rel("degrees to radians", Radians::from(Degrees(x)), r / k, e8);
                        c.rel("round trip", Radians::from(Degrees::from(rr)), r, e8);
                        // an error of one rounding in the angle
                        let t = $tol * 20.0 * (1.0 + r.abs());
                        c.rel("sin rad", rr.sin(), r.sin(), if e < 0 { $tol * 20.0 } else { $tol * 200.0 });
                        c.close("cos rad", rr.cos(), r.cos(), $tol * 20.0);
                        let dd = Degrees::<$t>((r * k) as $t);
                        if e < 0 {
                            c.rel("sin deg", dd.sin(), r.sin(), $tol * 20.0);
                            c.rel("tan deg", dd.tan(), r.tan(), $tol * 20.0);
                            c.rel("tan rad", rr.tan(), r.tan(), $tol * 20.0);
                            c.rel("asin", Radians::<$t>::asin(x), if r.abs() <= 1.0 { r.asin() } else { f64::NAN }, $tol * 200.0);
                            c.rel("asin degrees", Degrees::<$t>::asin(x), if r.abs() <= 1.0 { r.asin() * k } else { f64::NAN }, $tol * 200.0);
                        }
                        c.rel("atan", Radians::<$t>::atan(x), r.atan(), $tol * 20.0);
                        c.rel("atan degrees", Degrees::<$t>::atan(x), r.atan() * k, $tol * 20.0);
                        c.rel("atan2", Radians::<$t>::atan2(x, 1.0), r.atan(), $tol * 20.0);
                        c.rel("atan2 of equal size", Degrees::<$t>::atan2(x, x), r.atan2(r) * k, $tol * 20.0);
                        c.close("sin deg", dd.sin(), r.sin(), t);
                        c.close("cos deg", dd.cos(), r.cos(), t);
                        c.close("sin_cos", (rr.sin_cos(), dd.sin_cos()), ((r.sin(), r.cos()), (r.sin(), r.cos())), t);
                    });
                }
            }
        });
        $ctx.section(concat!("inverse-", stringify!($t)), |s| {
            let n = 200i64;
            for i in -n..=n {
                let x = i as f64 / n as f64;
                s.case(|| format!("ratio {x}"), |c| {
                    let x = x as $t as f64;
                    let xt = x as $t;
                    let k = 180.0 / std::f64::consts::PI;
                    let tol = if x.abs() > 0.999 { $tol * 1e4 } else { $tol * 100.0 };
                    c.close("asin rad", Radians::<$t>::asin(xt), x.asin(), tol);
                    c.close("acos rad", Radians::<$t>::acos(xt), x.acos(), tol);
                    c.close("asin deg", Degrees::<$t>::asin(xt), x.asin() * k, tol);
                    c.close("acos deg", Degrees::<$t>::acos(xt), x.acos() * k, tol);
                    c.close("sin(asin)", Radians::<$t>::asin(xt).sin(), x, tol);
                    c.close("cos(acos)", Degrees::<$t>::acos(xt).cos(), x, tol);
                    let y = x * 40.0;
                    c.close("atan rad", Radians::<$t>::atan(y as $t), (y as $t as f64).atan(), tol);
                    c.close("atan deg", Degrees::<$t>::atan(y as $t), (y as $t as f64).atan() * k, tol);
                });
            }
            for i in -8i64..=8 { for j in -8i64..=8 {
                if i == 0 && j == 0 { continue; }
                s.case(|| format!("atan2({i}, {j})"), |c| {
                    let (y, x) = (i as $t * 0.5, j as $t * 0.5);
                    let w = (y as f64).atan2(x as f64);
                    c.close("atan2 rad", Radians::atan2(y, x), w, $tol * 10.0);
                    c.close("atan2 deg", Degrees::atan2(y, x), w * 180.0 / std::f64::consts::PI, $tol * 10.0);
                });
            } }
        });
    };
}

fn main() {
    let ctx = Ctx::start("C06");
    let step = ctx.pick(5, 1);
    ctx.bound("every angle from -1440 to 1440 degrees in steps of 0.25 degrees, f32 and f64; all operand forms over all pairs of a grid of 36 values from 2e-17 to 3e16 and 242 further values; magnitudes 2^-40 .. 2^20 of an angle, relative to its size; ratios -1..=1 in steps of 1/200; atan2 on a 17x17 grid; offsets 1e-2 .. 1e-9 on either side of every multiple of 15 degrees within two turns and of the special ratios");
    let base = [0.0, 1.0, -1.0, 0.5, -2.25, 90.0, -180.0, 360.0, 7.0, 1024.0, -0.125, 0.1, -0.3, 57.3, 1.0e-3, -2.0e-5, 3.0e-8, -1.0e-10, 1.7e4, -2.3e6, 5.0e7, -7.1e9, 45.0, 30.0, 720.0, -359.9, 3.141592653589793, 6.283185307179586, 1.0000076, -0.99999, 0.9999997, 3.0e16, -2.0e-17, 5.0e-13, 360.0001, -89.99997];
    let mut v64: Vec<f64> = base.to_vec();
    if ctx.thorough() {
        v64.extend((-60..=60).map(|k| 1.7 * (k as f64).exp2()));
        v64.extend((-60..=60).map(|k| -k as f64 * 0.77));
    }
    let v32: Vec<f32> = v64.iter().map(|x| *x as f32).collect();
    let (v64, v32): (&[f64], &[f32]) = (&v64, &v32);
    unit!(ctx, "degrees-f64", Degrees, f64, 360.0, v64, 1e-14);
    unit!(ctx, "radians-f64", Radians, f64, 2.0 * std::f64::consts::PI, v64, 1e-14);
    unit!(ctx, "degrees-f32", Degrees, f32, 360.0, v32, 1e-6);
    unit!(ctx, "radians-f32", Radians, f32, 2.0 * std::f64::consts::PI, v32, 1e-6);
    trig!(ctx, f64, 1e-13, step);
    trig!(ctx, f32, 2e-6, step);
    ctx.finish();
}
