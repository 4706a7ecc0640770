//! C05: the scalar interface means the same thing for every scalar type.
use cglinalg_numeric::*;
use cglmc::*;

macro_rules! ints {
    ($ctx:ident, $full:ident, $($t:ident)*) => {$(
        $ctx.section(concat!("signed-ord-", stringify!($t)), |s| {
            let mut vals: Vec<$t> = vec![0, 1, -1, 2, -2, 3, 5, -5, 7, -7, 63, 64, -64, 100, -100, 126, -127, $t::MAX, $t::MAX - 1, $t::MIN + 1, $t::MAX / 2, $t::MIN / 2];
            if $full || stringify!($t) == "i8" { for i in -127i32..=127 { vals.push(i as $t); } }
            vals.sort(); vals.dedup();
            for &a in &vals {
                s.case(|| format!("{a}"), |c| {
                    c.same("abs", SimdScalarSigned::abs(a), if a < 0 { -a } else { a });
                    c.same("signum", SimdScalarSigned::signum(a), if a > 0 { 1 } else if a < 0 { -1 } else { 0 });
                    if a != 0 {
                        c.same("is_sign_positive", SimdScalarSigned::is_sign_positive(a), a > 0);
                        c.same("is_sign_negative", SimdScalarSigned::is_sign_negative(a), a < 0);
                    }
                });
                for &b in &vals {
                    s.case(|| format!("({a}, {b})"), |c| {
                        c.same("max", SimdScalarOrd::max(a, b), if a > b { a } else { b });
                        c.same("min", SimdScalarOrd::min(a, b), if a < b { a } else { b });
                        let m = if a < 0 { -a } else { a };
                        c.same("copysign", SimdScalarSigned::copysign(a, b), if b < 0 { -m } else { m });
                        if vals.len() <= 40 || b % 7 == 0 {
                            for &x in &vals {
                                if a <= b {
                                    c.same("clamp", SimdScalarOrd::clamp(x, a, b), if x < a { a } else if x > b { b } else { x });
                                }
                            }
                        }
                    });
                }
            }
            s.case(|| "bounds".into(), |c| {
                c.same("min_value", <$t as SimdScalarBounded>::min_value(), $t::MIN);
                c.same("max_value", <$t as SimdScalarBounded>::max_value(), $t::MAX);
            });
        });
    )*};
}

macro_rules! floats {
    ($ctx:ident, $full:ident, $t:ident, $tol:expr, $ulps:expr) => {
        let vals: Vec<$t> = {
            let mut v: Vec<$t> = vec![0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 3.0, -3.0, 0.1, -0.1, 0.75, -0.75, 0.25, 0.9, -0.9, 0.999, 10.0, -10.0, 100.25, -7.125, 1e6, -1e6, 1e-6, 1e-10, 123456.789];
            let n = if $full { 512 } else { 96 };
            for i in -n..=n { v.push(i as $t / 16.0); v.push(i as $t * 3.7); }
            v
        };
        $ctx.section(concat!("unary-", stringify!($t)), |s| for &x in &vals {
            s.case(|| format!("{x:?}"), |c| {
                c.bits("abs", SimdScalarSigned::abs(x), $t::from_bits(x.to_bits() & !(1 << ($t::MANTISSA_DIGITS as usize * 0 + std::mem::size_of::<$t>() * 8 - 1))));
                // documented: the sign of a zero counts
                c.eq("signum", SimdScalarSigned::signum(x), if x.is_sign_negative() { -1.0 } else { 1.0 });
                c.same("is_sign_positive", SimdScalarSigned::is_sign_positive(x), !x.is_sign_negative());
                c.same("is_sign_negative", SimdScalarSigned::is_sign_negative(x), x.is_sign_negative());
                c.eq("floor", SimdScalarFloat::floor(x), x.floor());
                c.eq("ceil", SimdScalarFloat::ceil(x), x.ceil());
                c.eq("round", SimdScalarFloat::round(x), x.round());
                c.eq("trunc", SimdScalarFloat::trunc(x), x.trunc());
                c.eq("fract", SimdScalarFloat::fract(x), x.fract());
                if x != 0.0 { c.close("recip", SimdScalarFloat::recip(x), 1.0 / x, $tol); }
                c.close("sin", SimdScalarFloat::sin(x), x.sin(), $tol);
                c.close("cos", SimdScalarFloat::cos(x), x.cos(), $tol);
                c.close("tan", SimdScalarFloat::tan(x), x.tan(), $tol * 100.0);
                c.close("sin_cos", SimdScalarFloat::sin_cos(x), (x.sin(), x.cos()), $tol);
                if x.abs() <= 1.0 {
                    c.close("asin", SimdScalarFloat::asin(x), x.asin(), $tol);
                    c.close("acos", SimdScalarFloat::acos(x), x.acos(), $tol);
                }
                if x.abs() < 1.0 { c.close("atanh", SimdScalarFloat::atanh(x), x.atanh(), $tol); }
                c.close("atan", SimdScalarFloat::atan(x), x.atan(), $tol);
                if x.abs() < 30.0 {
                    c.close("sinh", SimdScalarFloat::sinh(x), x.sinh(), $tol);
                    c.close("cosh", SimdScalarFloat::cosh(x), x.cosh(), $tol);
                    c.close("sinh_cosh", SimdScalarFloat::sinh_cosh(x), (x.sinh(), x.cosh()), $tol);
                    c.close("exp", SimdScalarFloat::exp(x), x.exp(), $tol);
                    c.close("exp2", SimdScalarFloat::exp2(x), x.exp2(), $tol);
                    c.close("exp_m1", SimdScalarFloat::exp_m1(x), x.exp_m1(), $tol);
                }
                c.close("tanh", SimdScalarFloat::tanh(x), x.tanh(), $tol);
                c.close("asinh", SimdScalarFloat::asinh(x), x.asinh(), $tol * 100.0);
                if x >= 1.0 { c.close("acosh", SimdScalarFloat::acosh(x), x.acosh(), $tol * 100.0); }
                if x > 0.0 {
                    c.close("ln", SimdScalarFloat::ln(x), x.ln(), $tol);
                    c.close("log2", SimdScalarFloat::log2(x), x.log2(), $tol);
                    c.close("log10", SimdScalarFloat::log10(x), x.log10(), $tol);
                    c.close("sqrt", SimdScalarFloat::sqrt(x), x.sqrt(), $tol);
                    c.close("sqrt squared", { let r = SimdScalarFloat::sqrt(x); r * r }, x, $tol);
                }
                if x > -1.0 { c.close("ln_1p", SimdScalarFloat::ln_1p(x), x.ln_1p(), $tol); }
                c.close("cbrt", SimdScalarFloat::cbrt(x), x.cbrt(), $tol);
                for n in -3..=5 { if x != 0.0 && x.abs() < 1e3 && x.abs() > 1e-3 { c.close("powi", SimdScalarFloat::powi(x, n), x.powi(n), $tol); } }
                c.same("is_finite", SimdScalarFloat::is_finite(x), true);
                c.same("is_nan", SimdScalarFloat::is_nan(x), false);
                c.same("is_infinite", SimdScalarFloat::is_infinite(x), false);
                c.same("is_normal", SimdScalarFloat::is_normal(x), x != 0.0);
                c.same("is_subnormal", SimdScalarFloat::is_subnormal(x), false);
            });
        });
        $ctx.section(concat!("binary-", stringify!($t)), |s| {
            s.case(|| "signs of zero, fused multiplication".into(), |c| {
                for &a in &vals { for z in [0.0, -0.0] {
                    c.bits("copysign to a zero's sign", SimdScalarSigned::copysign(a, z), a.copysign(z));
                    c.bits("copysign of a zero", SimdScalarSigned::copysign(z, a), (z as $t).copysign(a));
                } }
                c.truth("signum of NaN", SimdScalarFloat::is_nan(SimdScalarSigned::signum($t::NAN)));
                // documented: one rounding only
                for k in 1..12 { for m in [1.0, 1.5, -3.0, 0.1, 1e4] {
                    let h = (2.0 as $t).powi(k) * $t::EPSILON;
                    let (a, b) = (m * (1.0 + h), 1.0 - h);
                    c.eq("mul_add rounds once", SimdScalarFloat::mul_add(a, b, -(a * b)), a.mul_add(b, -(a * b)));
                } }
            });
            let few: Vec<$t> = vals.iter().cloned().filter(|x| x.abs() < 40.0).step_by(if $full { 2 } else { 5 }).collect();
            for &a in &few { for &b in &few {
                s.case(|| format!("({a:?}, {b:?})"), |c| {
                    c.eq("max", SimdScalarOrd::max(a, b), if a > b { a } else { b });
                    c.eq("min", SimdScalarOrd::min(a, b), if a < b { a } else { b });
                    c.bits("copysign", SimdScalarSigned::copysign(a, b), a.copysign(b));
                    c.close("hypot", SimdScalarFloat::hypot(a, b), ((a * a + b * b) as $t).sqrt(), $tol);
                    if a != 0.0 || b != 0.0 { c.close("atan2", SimdScalarFloat::atan2(a, b), a.atan2(b), $tol); }
                    c.close("mul_add", SimdScalarFloat::mul_add(a, b, 2.5), a * b + 2.5, $tol);
                    if a > 0.0 { c.close("powf", SimdScalarFloat::powf(a, b / 8.0), a.powf(b / 8.0), $tol); }
                    if a > 0.0 && b > 0.0 && b != 1.0 && (b - 1.0).abs() > 0.05 { c.close("log", SimdScalarFloat::log(a, b), a.ln() / b.ln(), $tol * 10.0); }
                    if a <= b { for &x in few.iter().step_by(4) {
                        c.eq("clamp", SimdScalarOrd::clamp(x, a, b), if x < a { a } else if x > b { b } else { x });
                    } }
                });
            } }
        });
        // The whole exponent range, results compared relative to their own size.
        $ctx.section(concat!("magnitudes-", stringify!($t)), |s| {
            let step = if $full { 1 } else { ($t::MAX_EXP / 16) as usize - 1 };
            let mut mags: Vec<$t> = Vec::new();
            for e in ($t::MIN_EXP - 1..$t::MAX_EXP).step_by(step).chain([-60, -52, -40, -30, -24, -20, -14, -10, -7, -5, -3, -2, -1, 0, 1, 2, 3, 5, 7, 10, 14, 20, 23, 24, 30]) {
                for m in [1.0, 1.25, 1.71875] { for g in [1.0, -1.0] { mags.push(g * m * (2.0 as $t).powi(e)); } }
            }
            macro_rules! same_fn { ($c:ident, $x:ident, $k:expr, $n:ident) => {{
                let (g, w) = (SimdScalarFloat::$n($x), $x.$n());
                $c.scaled(stringify!($n), g, w, 0.0, $tol * $k);
            }}; }
            for &x in &mags {
                s.case(|| format!("{x:?}"), |c| {
                    c.bits("abs", SimdScalarSigned::abs(x), if x < 0.0 { -x } else { x });
                    c.eq("signum", SimdScalarSigned::signum(x), if x > 0.0 { 1.0 } else { -1.0 });
                    c.same("is_sign_positive", SimdScalarSigned::is_sign_positive(x), x > 0.0);
                    c.same("is_sign_negative", SimdScalarSigned::is_sign_negative(x), x < 0.0);
                    c.eq("floor", SimdScalarFloat::floor(x), x.floor());
                    c.eq("ceil", SimdScalarFloat::ceil(x), x.ceil());
                    c.eq("round", SimdScalarFloat::round(x), x.round());
                    c.eq("trunc", SimdScalarFloat::trunc(x), x.trunc());
                    c.eq("fract", SimdScalarFloat::fract(x), x.fract());
                    c.same("is_finite", SimdScalarFloat::is_finite(x), true);
                    c.same("is_nan", SimdScalarFloat::is_nan(x), false);
                    c.same("is_infinite", SimdScalarFloat::is_infinite(x), false);
                    c.same("is_normal", SimdScalarFloat::is_normal(x), x.is_normal());
                    c.same("is_subnormal", SimdScalarFloat::is_subnormal(x), x.is_subnormal());
                    same_fn!(c, x, 1.0, recip);
                    same_fn!(c, x, 1.0, sin); same_fn!(c, x, 1.0, cos); same_fn!(c, x, 1.0, tan);
                    same_fn!(c, x, 1.0, atan); same_fn!(c, x, 1.0, sinh); same_fn!(c, x, 1.0, cosh); same_fn!(c, x, 1.0, tanh);
                    same_fn!(c, x, 1.0, exp); same_fn!(c, x, 1.0, exp2); same_fn!(c, x, 1.0, exp_m1); same_fn!(c, x, 1.0, cbrt);
                    if x.abs() <= 1.0 { same_fn!(c, x, 1.0, asin); same_fn!(c, x, 1.0, acos); }
                    if x.abs() < 1.0 { same_fn!(c, x, 1.0, atanh); }
                    same_fn!(c, x, 100.0, asinh);
                    if x >= 1.0 { same_fn!(c, x, 100.0, acosh); }
                    if x > 0.0 { same_fn!(c, x, 1.0, sqrt); same_fn!(c, x, 1.0, ln); same_fn!(c, x, 1.0, log2); same_fn!(c, x, 1.0, log10); }
                    if x > -1.0 { same_fn!(c, x, 1.0, ln_1p); }
                    c.close("sin_cos", SimdScalarFloat::sin_cos(x), (x.sin(), x.cos()), $tol);
                    for n in [-1000, -100, -31, -7, -3, -2, -1, 0, 1, 2, 3, 4, 6, 9, 16, 33, 120, 999] {
                        let (g, w) = (SimdScalarFloat::powi(x, n), x.powi(n));
                        if w.is_normal() { c.scaled("powi", g, w, 0.0, $tol * (1.0 + n.abs() as f64 / 8.0)); }
                    }
                });
            }
            let few: Vec<$t> = mags.iter().cloned().step_by(if $full { 61 } else { 5 }).collect();
            for &a in &few { for &b in &few {
                s.case(|| format!("({a:?}, {b:?})"), |c| {
                    c.eq("max", SimdScalarOrd::max(a, b), if a > b { a } else { b });
                    c.eq("min", SimdScalarOrd::min(a, b), if a < b { a } else { b });
                    c.bits("copysign", SimdScalarSigned::copysign(a, b), a.copysign(b));
                    c.scaled("hypot", SimdScalarFloat::hypot(a, b), a.hypot(b), 0.0, $tol);
                    c.scaled("atan2", SimdScalarFloat::atan2(a, b), a.atan2(b), 0.0, $tol);
                    if a > 0.0 {
                        let w = a.powf(b);
                        if w.is_normal() && b.abs() < 1e4 { c.scaled("powf", SimdScalarFloat::powf(a, b), w, 0.0, $tol * 100.0); }
                        if b > 0.0 && (b.ln()).abs() > 0.05 { c.scaled("log", SimdScalarFloat::log(a, b), a.ln() / b.ln(), 0.0, $tol * 10.0); }
                    }
                    for &x in few.iter().step_by(7) {
                        if a <= b { c.eq("clamp", SimdScalarOrd::clamp(x, a, b), if x < a { a } else if x > b { b } else { x }); }
                        let w = a as f64 * b as f64 + x as f64;
                        if w.is_finite() && (w as $t).is_finite() && (a * b).is_finite() && x.is_finite() {
                            c.scaled("mul_add", SimdScalarFloat::mul_add(a, b, x), w as $t, (a as f64 * b as f64).abs().max((x as f64).abs()).max($t::MIN_POSITIVE as f64), $tol);
                        }
                    }
                });
            } }
        });
        $ctx.section(concat!("constants-", stringify!($t)), |s| s.case(|| "constants".into(), |c| {
            use std::$t::consts as k;
            c.eq("pi", <$t as SimdScalarFloat>::pi(), k::PI);
            c.eq("two_pi", <$t as SimdScalarFloat>::two_pi(), k::TAU);
            c.eq("frac_pi_2", <$t as SimdScalarFloat>::frac_pi_2(), k::FRAC_PI_2);
            c.eq("frac_pi_3", <$t as SimdScalarFloat>::frac_pi_3(), k::FRAC_PI_3);
            c.eq("frac_pi_4", <$t as SimdScalarFloat>::frac_pi_4(), k::FRAC_PI_4);
            c.eq("frac_pi_6", <$t as SimdScalarFloat>::frac_pi_6(), k::FRAC_PI_6);
            c.eq("frac_pi_8", <$t as SimdScalarFloat>::frac_pi_8(), k::FRAC_PI_8);
            c.eq("frac_1_pi", <$t as SimdScalarFloat>::frac_1_pi(), k::FRAC_1_PI);
            c.eq("frac_2_pi", <$t as SimdScalarFloat>::frac_2_pi(), k::FRAC_2_PI);
            c.eq("frac_2_sqrt_pi", <$t as SimdScalarFloat>::frac_2_sqrt_pi(), k::FRAC_2_SQRT_PI);
            c.eq("e", <$t as SimdScalarFloat>::e(), k::E);
            c.eq("log2_e", <$t as SimdScalarFloat>::log2_e(), k::LOG2_E);
            c.eq("log10_e", <$t as SimdScalarFloat>::log10_e(), k::LOG10_E);
            c.eq("ln_2", <$t as SimdScalarFloat>::ln_2(), k::LN_2);
            c.eq("ln_10", <$t as SimdScalarFloat>::ln_10(), k::LN_10);
            c.eq("sqrt_2", <$t as SimdScalarFloat>::sqrt_2(), k::SQRT_2);
            c.eq("frac_1_sqrt_2", <$t as SimdScalarFloat>::frac_1_sqrt_2(), k::FRAC_1_SQRT_2);
            c.truth("nan", <$t as SimdScalarFloat>::nan().is_nan());
            c.eq("infinity", <$t as SimdScalarFloat>::infinity(), $t::INFINITY);
            c.eq("neg_infinity", <$t as SimdScalarFloat>::neg_infinity(), $t::NEG_INFINITY);
            c.bits("neg_zero", <$t as SimdScalarFloat>::neg_zero(), -0.0 as $t);
            c.eq("machine_epsilon", <$t as SimdScalarFloat>::machine_epsilon(), $t::EPSILON);
            c.eq("min_positive_value", <$t as SimdScalarFloat>::min_positive_value(), $t::MIN_POSITIVE);
            c.eq("min_value", <$t as SimdScalarBounded>::min_value(), $t::MIN);
            c.eq("max_value", <$t as SimdScalarBounded>::max_value(), $t::MAX);
            c.eq("default_epsilon", <$t as SimdScalarCmp>::default_epsilon(), $t::EPSILON);
            c.same("default_max_ulps", <$t as SimdScalarCmp>::default_max_ulps(), $ulps);
            for x in [$t::NAN, $t::INFINITY, $t::NEG_INFINITY, $t::MIN_POSITIVE / 4.0, 0.0, 1.0] {
                c.same("is_nan", SimdScalarFloat::is_nan(x), x.is_nan());
                c.same("is_infinite", SimdScalarFloat::is_infinite(x), x.is_infinite());
                c.same("is_finite", SimdScalarFloat::is_finite(x), x.is_finite());
                c.same("is_normal", SimdScalarFloat::is_normal(x), x.is_normal());
                c.same("is_subnormal", SimdScalarFloat::is_subnormal(x), x.is_subnormal());
            }
        }));
    };
}

fn main() {
    let ctx = Ctx::start("C05");
    let full = ctx.thorough();
    ctx.bound("all pairs (and clamp triples) over boundary and small values of the six signed integer types; float grids of step 1/16 and 3.7 around zero, all pairs; magnitudes over the whole exponent range (relative comparison), pairs and triples of them; integer powers up to +-1000; constants");
    ctx.assume("min, max and clamp are not examined on NaN; transcendental functions are compared with the platform's to rounding tolerance");
    ints!(ctx, full, i8 i16 i32 i64 i128 isize);
    floats!(ctx, full, f64, 1e-12, 4u64);
    floats!(ctx, full, f32, 2e-6, 4u32);
    if full {
        ctx.par("every-f32-rounding", 1 << 16, |hi, s| {
            s.case(|| format!("f32 bit patterns {hi:#06x}????"), |c| {
                let mut bad = None;
                for lo in 0..(1u32 << 16) {
                    let x = f32::from_bits(((hi as u32) << 16) | lo);
                    if x.is_nan() { continue; }
                    let ok = SimdScalarFloat::floor(x) == x.floor()
                        && SimdScalarFloat::ceil(x) == x.ceil()
                        && SimdScalarFloat::round(x) == x.round()
                        && SimdScalarFloat::trunc(x) == x.trunc()
                        && SimdScalarSigned::abs(x) == x.abs()
                        && SimdScalarOrd::clamp(x, -2.5f32, 7.0) == (if x < -2.5 { -2.5 } else if x > 7.0 { 7.0 } else { x })
                        && SimdScalarOrd::max(x, 3.0f32) == (if x > 3.0 { x } else { 3.0 })
                        && SimdScalarOrd::min(x, 3.0f32) == (if x < 3.0 { x } else { 3.0 });
                    if !ok { bad = Some(x); }
                }
                c.truth_with("rounding, ordering and sign for all 65,536 patterns", bad.is_none(), || format!("fails at {bad:?}"));
            });
        });
    }
    ctx.finish();
}
