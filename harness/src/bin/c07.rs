//! C07: angle normalisation lands in its interval and keeps the direction.
use cglinalg_trigonometry::{Angle, Degrees, Radians};
use cglmc::*;

macro_rules! norm {
    ($s:ident, $A:ident, $t:ident, $x:expr, $exact:expr, $tol:expr) => {{
        let x: $t = $x;
        let full: f64 = <$A<$t>>::full_turn().0 as f64;
        let half: f64 = <$A<$t>>::full_turn_div_2().0 as f64;
        $s.case(|| format!("{x:?} {}", stringify!($A)), |c| {
            let a = $A(x);
            let n = a.normalize().0 as f64;
            c.truth_with("normalize lies in [0, full turn)", n >= 0.0 && n < full, || format!("{n:?}"));
            let turns = (n - x as f64) / full;
            c.truth_with("normalize changes the angle by whole turns", (turns - turns.round()).abs() <= $tol, || format!("{n:?}, {turns:?} turns"));
            if x >= 0.0 && (x as f64) < full { c.eq("an angle already in range is unchanged", n, x); }
            let m = a.normalize_signed().0 as f64;
            c.truth_with("normalize_signed lies in [-half turn, half turn)", m >= -half && m < half, || format!("{m:?}"));
            let turns = (m - x as f64) / full;
            c.truth_with("normalize_signed changes the angle by whole turns", (turns - turns.round()).abs() <= $tol, || format!("{m:?}, {turns:?} turns"));
            if $exact {
                let w = { let r = (x as f64) % 360.0; if r < 0.0 { r + 360.0 } else { r } };
                c.eq("exact value", n, w);
                c.eq("exact signed value", m, if w >= 180.0 { w - 360.0 } else { w });
                let o = { let r = (x as f64 + 180.0) % 360.0; if r < 0.0 { r + 360.0 } else { r } };
                c.eq("opposite", a.opposite(), o);
            }
            let o = a.opposite().0 as f64;
            c.truth_with("opposite lies in [0, full turn)", o >= 0.0 && o < full, || format!("{o:?}"));
            let h = (o - x as f64 - half) / full;
            c.truth_with("opposite is half a turn away", (h - h.round()).abs() <= $tol, || format!("{o:?}"));
            let q = $A(n as $t);
            c.eq("normalize is idempotent", q.normalize(), n);
            c.close("same sine", a.normalize().sin(), a.sin(), $tol * 10.0 * (1.0 + (x as f64).abs() / full));
            c.close("same cosine", a.normalize_signed().cos(), a.cos(), $tol * 10.0 * (1.0 + (x as f64).abs() / full));
        });
    }};
}

fn main() {
    let ctx = Ctx::start("C07");
    let full = ctx.thorough();
    ctx.bound("every quarter degree from -1440 to 1440 (eighths in the thorough tier), the same angles in radians, f32 and f64; +-2^-k for k up to 1000; neighbours of every quarter turn up to four turns; bisectors of all pairs on a 5 degree (thorough 2 degree) grid over [-720, 720) and on all pairs of magnitudes 2^-30 .. 2^30, f32 and f64; up to 2^40 turns");
    let n: i64 = if full { 8 } else { 4 };
    ctx.section("degrees", |s| {
        for i in -1440 * n..=1440 * n {
            let d = i as f64 / n as f64;
            norm!(s, Degrees, f64, d, true, 1e-12);
            norm!(s, Degrees, f32, d as f32, true, 1e-5);
        }
    });
    ctx.section("radians", |s| {
        for i in -1440 * n..=1440 * n {
            let r = (i as f64 / n as f64) * std::f64::consts::PI / 180.0;
            norm!(s, Radians, f64, r, false, 1e-12);
            norm!(s, Radians, f32, r as f32, false, 1e-5);
        }
    });
    ctx.section("tiny", |s| {
        for k in 1..=1000 {
            for sg in [1.0, -1.0] {
                let x = sg * 2f64.powi(-k);
                norm!(s, Degrees, f64, x, false, 1e-12);
                norm!(s, Radians, f64, x, false, 1e-12);
                if k < 120 {
                    norm!(s, Degrees, f32, x as f32, false, 1e-5);
                    norm!(s, Radians, f32, x as f32, false, 1e-5);
                }
            }
        }
    });
    ctx.section("neighbours-of-quarter-turns", |s| {
        for q in -16i32..=16 {
            for ulps in -3i64..=3 {
                let x = q as f64 * 90.0;
                let y = q as f64 * std::f64::consts::FRAC_PI_2;
                let step = |v: f64| if v == 0.0 { ulps as f64 * f64::from_bits(1) } else { f64::from_bits((v.to_bits() as i64 + ulps) as u64) };
                norm!(s, Degrees, f64, step(x), false, 1e-12);
                norm!(s, Radians, f64, step(y), false, 1e-12);
                let step32 = |v: f32| if v == 0.0 { ulps as f32 * f32::from_bits(1) } else { f32::from_bits((v.to_bits() as i32 + ulps as i32) as u32) };
                norm!(s, Degrees, f32, step32(x as f32), false, 1e-5);
                norm!(s, Radians, f32, step32(y as f32), false, 1e-5);
            }
        }
    });
    ctx.bound("offsets +-10^-1 .. +-10^-10 degrees and radians from every quarter turn up to four turns");
    ctx.section("beside-quarter-turns", |s| {
        for q in -16i32..=16 {
            for e in 1..=10 {
                for sg in [1.0, -1.0] {
                    let d = sg * 10f64.powi(-e);
                    let x = q as f64 * 90.0 + d;
                    let y = q as f64 * std::f64::consts::FRAC_PI_2 + d;
                    norm!(s, Degrees, f64, x, false, 1e-12);
                    norm!(s, Radians, f64, y, false, 1e-12);
                    norm!(s, Degrees, f32, x as f32, false, 1e-5);
                    norm!(s, Radians, f32, y as f32, false, 1e-5);
                }
            }
        }
    });
    ctx.section("many-turns", |s| {
        for k in 0..40 {
            for d in [0.0, 0.25, 90.0, 179.5, 180.0, 270.5, 359.75] {
                for sg in [1.0, -1.0] {
                    let x = sg * (360.0 * 2f64.powi(k) + d);
                    norm!(s, Degrees, f64, x, true, 1e-12);
                    let y = x * std::f64::consts::PI / 180.0;
                    norm!(s, Radians, f64, y, false, 1e-12 * (1.0 + y.abs()));
                    if k < 14 {
                        norm!(s, Degrees, f32, x as f32, d == (d as i64) as f64, 1e-5);
                        norm!(s, Radians, f32, y as f32, false, 1e-6 * (1.0 + y.abs()));
                    }
                }
            }
        }
    });
    let step = if full { 2 } else { 5 };
    ctx.section("bisect", |s| {
        let mut i = -720i64;
        while i < 720 {
            let mut j = -720i64;
            while j < 720 {
                s.case(|| format!("bisect({i}, {j})"), |c| {
                    let w = { let r = ((i + j) as f64 / 2.0) % 360.0; if r < 0.0 { r + 360.0 } else { r } };
                    c.eq("degrees", Degrees(i as f64).bisect(Degrees(j as f64)), w);
                    let k = std::f64::consts::PI / 180.0;
                    let b = Radians(i as f64 * k).bisect(Radians(j as f64 * k)).0;
                    let t = (b - w * k) / (2.0 * std::f64::consts::PI);
                    c.truth_with("radians", (t - t.round()).abs() < 1e-12 && b >= 0.0 && b < 2.0 * std::f64::consts::PI, || format!("{b:?}"));
                });
                j += step;
            }
            i += step;
        }
    });
    // any sizes: the midpoint, up to whole turns, to the rounding of the larger angle
    let mut sizes: Vec<f64> = vec![0.0];
    for k in -30i32..=30 {
        if k % ctx.pick(5, 1) == 0 {
            sizes.extend([1.0, -1.3, 1.9].map(|m| m * (k as f64).exp2()));
        }
    }
    ctx.section("bisect-sizes", |s| {
        macro_rules! at {
            ($A:ident, $t:ident, $a:expr, $b:expr, $eps:expr) => {{
                let (a, b) = ($a as $t, $b as $t);
                s.case(|| format!("bisect({a:?}, {b:?}) {} {}", stringify!($A), stringify!($t)), |c| {
                    let full = <$A<$t>>::full_turn().0 as f64;
                    let g = $A(a).bisect($A(b)).0 as f64;
                    let w = (a as f64 + b as f64) / 2.0;
                    let t = (g - w) / full;
                    let tol = $eps * (1.0 + (a as f64).abs().max((b as f64).abs()) / full);
                    c.truth_with("bisector is halfway, up to whole turns", (t - t.round()).abs() <= tol, || format!("{g:?} for {w:?}"));
                    c.truth_with("bisector lies in [0, full turn)", g >= 0.0 && g < full, || format!("{g:?}"));
                    if w >= 1.0e-3 * full && w < 0.999 * full && a >= 0.0 && b >= 0.0 && (a.max(b) as f64) < full {
                        c.rel("bisector of angles in range", g, w, 100.0 * $eps);
                    }
                });
            }};
        }
        for &a in &sizes {
            for &b in &sizes {
                at!(Degrees, f64, a, b, 1e-14);
                at!(Radians, f64, a, b, 1e-14);
                at!(Degrees, f32, a, b, 1e-6);
                at!(Radians, f32, a, b, 1e-6);
            }
        }
    });
    ctx.finish();
}
