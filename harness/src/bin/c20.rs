//! C20: lerp, nlerp, slerp.
use cglinalg_core::*;
use cglmc::*;

type Q = [f64; 4];
/// Great-arc interpolation built from an orthonormal frame of the arc (not the sine-ratio formula).
fn arc(a: &Q, b: &Q, t: f64) -> Q {
    let c = model::dot(a, b);
    let half_chord = model::norm(&model::sub(a, b)) / 2.0;
    let theta = 2.0 * half_chord.min(1.0).asin();
    let e = model::sub(b, &model::scale(a, c));
    let n = model::norm(&e);
    if n < 1e-300 {
        return *a;
    }
    let e = e.map(|x| x / n);
    model::add(&model::scale(a, (t * theta).cos()), &model::scale(&e, (t * theta).sin()))
}
fn q(a: &Q) -> Quaternion<f64> {
    Quaternion::from(*a)
}
fn from_axis(u: &[f64; 3], t: f64) -> Q {
    let (s, c) = (t / 2.0).sin_cos();
    [c, u[0] * s, u[1] * s, u[2] * s]
}

fn main() {
    let ctx = Ctx::start("C20");
    let full = ctx.thorough();
    let dirs: Vec<[f64; 3]> = grid::directions3(false);
    let degs: &[f64] = if full { &[0.0, 30.0, 90.0, 120.0, 180.0, 200.0, 270.0, 359.0, -45.0] } else { &[0.0, 45.0, 120.0, 180.0, 270.0] };
    let mut rots: Vec<Q> = Vec::new();
    for (k, u) in dirs.iter().enumerate() {
        for (j, d) in degs.iter().enumerate() {
            if full || (k + j) % 2 == 0 {
                let r = from_axis(u, grid::deg(*d));
                if !rots.contains(&r) {
                    rots.push(r);
                }
            }
        }
    }
    // Quaternions with exact unit length: the 24 Hurwitz units.
    for i in 0..4 {
        for s in [1.0, -1.0] {
            let mut e = [0.0; 4];
            e[i] = s;
            rots.push(e);
        }
    }
    for m in 0..16 {
        let mut e = [0.5; 4];
        for (i, x) in e.iter_mut().enumerate() {
            if m & (1 << i) != 0 {
                *x = -0.5;
            }
        }
        rots.push(e);
    }
    let steps = ctx.grade(8, 32, 128);
    ctx.bound(&format!("all ordered pairs of {} unit quaternions (both signs of each Hurwitz unit), amounts k/{steps} for k = 0..={steps}", rots.len()));
    let mut slerp_amounts: Vec<f64> = (0..=steps).map(|k| k as f64 / steps as f64).collect();
    // amounts beside the ends and the middle
    for e in [1e-2, 1e-4, 1e-6, 1e-9] {
        slerp_amounts.extend([e, 1.0 - e, 0.5 + e]);
    }
    ctx.bound("the same with amounts beside 0, 1/2 and 1 (1e-2 .. 1e-9 away) and beyond the ends (-1 .. 2)");
    let dir_tol = 1e-10;
    let pair = |s: &mut Sec, a: &Q, b: &Q, tol: f64, what: &str| {
        let d = model::dot(a, b);
        s.case(|| format!("{what} a = {a:?}, b = {b:?}, dot = {d:e}"), |c| {
            // Away from equal and opposite pairs the result is known to rounding error.
            let tol = f64::min(tol, 1e-13 + 4e-15 / f64::max(1.0 - d * d, 1e-300));
            // beyond the ends the path goes on along the same arc
            if d.abs() > 1e-9 && d.abs() < 0.99 {
                for t in [-1.0, -0.5, -0.01, 1.01, 1.5, 2.0] {
                    let near = if d < 0.0 { a.map(|x| -x) } else { *a };
                    c.close("slerp beyond the ends", q(a).slerp(&q(b), t), arc(&near, b, t), 1e-11);
                }
            }
            for &t in &slerp_amounts {
                // Equally long arcs (orthogonal quaternions): either is the shorter one.
                let near = if d < 0.0 { a.map(|x| -x) } else { *a };
                let got = q(a).slerp(&q(b), t);
                let w = arc(&near, b, t);
                if d.abs() < 1e-9 {
                    let other = arc(&near.map(|x| -x), b, t);
                    let g = [got[0], got[1], got[2], got[3]];
                    let pick = if model::norm(&model::sub(&g, &other)) < model::norm(&model::sub(&g, &w)) { other } else { w };
                    c.close("slerp", got, pick, tol);
                } else {
                    c.close("slerp", got, w, tol);
                }
                c.close("slerp has unit length", got.norm(), 1.0, tol);
                if d.abs() > 0.99 && d.abs() < 1.0 - 1e-12 {
                    // the direction is known better than the length, whose sine ratio loses digits
                    let g = [got[0], got[1], got[2], got[3]];
                    let n = model::norm(&g);
                    c.close("direction of slerp", g.map(|x| x / n), w, dir_tol);
                }
            }
        });
    };
    ctx.par("slerp-all-pairs", rots.len(), |i, s| {
        for b in &rots {
            pair(s, &rots[i], b, 2e-8, "");
        }
    });
    // Nearly equal and nearly opposite pairs, across the switch to normalised interpolation.
    let eps: &[f64] = &[0.0, 1e-9, 1e-7, 1e-5, 1e-4, 4e-4, 4.9e-4, 5.1e-4, 6e-4, 9e-4, 1.1e-3, 2e-3, 3e-3, 5e-3, 8e-3, 1e-2, 0.02, 0.05];
    ctx.bound(&format!("every rotation with neighbours turned by {eps:?} radians about every second axis, and their negations"));
    ctx.par("slerp-near", rots.len(), |i, s| {
        let a = rots[i];
        for (k, u) in dirs.iter().enumerate() {
            if !full && k % 4 != i % 4 {
                continue;
            }
            for e in eps {
                let b = model::qmul(&a, &from_axis(u, 2.0 * e));
                let n = model::norm(&b);
                let b = b.map(|x| x / n);
                pair(s, &a, &b, 2e-8, "near");
                pair(s, &a, &b.map(|x| -x), 2e-8, "near opposite");
            }
        }
    });
    let alpha: &[f64] = ctx.pick(grid::TINY3, grid::FIVE);
    let n = grid::count(alpha.len(), 4);
    let amounts: &[f64] = &[0.0, 1.0, 0.5, 0.25, 0.75, 0.125, 2.0, -1.0];
    ctx.bound(&format!("lerp/nlerp: all pairs of quaternions over {alpha:?}, amounts {amounts:?}"));
    ctx.par("lerp-nlerp", n, |i, s| {
        let a: Q = grid::tuple(alpha, i);
        for j in 0..n {
            let b: Q = grid::tuple(alpha, j);
            s.case(|| format!("a = {a:?}, b = {b:?}"), |c| {
                for &t in amounts {
                    let w = model::add(&a, &model::scale(&model::sub(&b, &a), t));
                    c.close("lerp", q(&a).lerp(&q(&b), t), w, 1e-15);
                    let nw = model::norm(&w);
                    if nw > 0.0 {
                        c.close("nlerp", q(&a).nlerp(&q(&b), t), w.map(|x| x / nw), 1e-14);
                    }
                }
            });
        }
    });
    // Components of different sizes: each component interpolates on its own, whatever the others are.
    let sizes: &[f64] = &[0.0, 1.0, -1.0, 1e-3, -1e-6, 1e-9, 1e3, -1e9, 1.0000001, -0.9999];
    let amounts2: &[f64] = &[0.0, 1.0, 0.5, 0.25, -1.0, 2.0, 1e-3, 1e-6, 1e-9, 0.999, 0.999999, 1.001, 1e3];
    let ns = sizes.len();
    ctx.bound(&format!("lerp/nlerp: pairs of components over {sizes:?} in every position beside {{1, 3}}, amounts {amounts2:?}"));
    ctx.par("lerp-mixed-sizes", ns * ns, |i, s| {
        for p in 0..4 {
            let mut a = [1.0, 3.0, -2.0, 5.0];
            let mut b = [3.0, -1.0, 4.0, 2.0];
            a[p] = sizes[i / ns];
            b[p] = sizes[i % ns];
            s.case(|| format!("a = {a:?}, b = {b:?}"), |c| {
                for &t in amounts2 {
                    let got = q(&a).lerp(&q(&b), t);
                    let w: Q = core::array::from_fn(|j| a[j] + (b[j] - a[j]) * t);
                    for j in 0..4 {
                        let size = f64::abs(a[j]) * f64::max(1.0, f64::abs(t)) + f64::abs(b[j]) * f64::abs(t);
                        c.scaled("component of lerp", got[j], w[j], size, 2e-15);
                    }
                    {
                        let n = model::norm(&w);
                        let got = q(&a).nlerp(&q(&b), t);
                        let size: Q = core::array::from_fn(|j| (f64::abs(a[j]) * f64::max(1.0, f64::abs(t)) + f64::abs(b[j]) * f64::abs(t)) / n);
                        let cond = model::norm(&size);
                        for j in 0..4 {
                            c.scaled("component of nlerp", got[j], w[j] / n, size[j] + f64::abs(w[j]) / n * cond, 1e-14);
                        }
                    }
                }
            });
        }
    });
    ctx.par("f32", rots.len(), |i, s| {
        let f = |a: &Q| Quaternion::<f32>::new(a[0] as f32, a[1] as f32, a[2] as f32, a[3] as f32);
        let a = rots[i];
        for b in rots.iter().step_by(if full { 1 } else { 3 }) {
            let d = model::dot(&a, b);
            if d.abs() < 1e-4 {
                continue;
            }
            s.case(|| format!("f32 a = {a:?}, b = {b:?}"), |c| {
                for k in 0..=4 {
                    let t = k as f64 / 4.0;
                    let near = if d < 0.0 { a.map(|x| -x) } else { a };
                    c.close("slerp", f(&a).slerp(&f(b), t as f32), arc(&near, b, t), 5e-4);
                    let w = model::add(&a, &model::scale(&model::sub(b, &a), t));
                    c.close("lerp", f(&a).lerp(&f(b), t as f32), w, 1e-6);
                    let nw = model::norm(&w);
                    if nw > 1e-3 {
                        c.close("nlerp", f(&a).nlerp(&f(b), t as f32), w.map(|x| x / nw), 1e-4);
                    }
                }
            });
        }
    });
    ctx.assume("of two equally long arcs (orthogonal quaternions, rotations half a turn apart) either may be taken");
    ctx.finish();
}
