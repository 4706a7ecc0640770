//! C30: approximate comparison of aggregates is the conjunction over their components.
use approx_cmp::*;
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
use cglmc::*;

/// The numbers of a debug text in order; an absent value is a NaN.
fn numbers(t: &str) -> Vec<f64> {
    let b: Vec<char> = t.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let start = i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_');
        if start && (b[i].is_ascii_digit() || (b[i] == '-' && i + 1 < b.len() && (b[i + 1].is_ascii_digit() || b[i + 1] == 'i'))) {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == '.' || (b[j] == '-' && b[j - 1] == 'e')) {
                j += 1;
            }
            let s: String = b[i..j].iter().collect();
            if let Ok(x) = s.parse::<f64>() {
                out.push(x);
            }
            i = j;
        } else if start && b[i].is_alphabetic() {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            let s: String = b[i..j].iter().collect();
            match s.as_str() {
                "None" | "NaN" => out.push(f64::NAN),
                "inf" => out.push(f64::INFINITY),
                _ => {}
            }
            i = j;
        } else {
            i += 1;
        }
    }
    out
}
/// The numbers shown, rearranged into the order of `fields` where the text names them.
fn shown(t: &str, fields: &[(&str, usize)]) -> Option<Vec<f64>> {
    let pos: Vec<Option<usize>> = fields.iter().map(|(n, _)| t.find(&format!(" {n}: "))).collect();
    if pos.iter().any(|p| p.is_none()) {
        return None;
    }
    let mut out = Vec::new();
    for p in &pos {
        let p = p.unwrap();
        let end = pos.iter().map(|q| q.unwrap()).filter(|q| *q > p).min().unwrap_or(t.len());
        out.extend(numbers(&t[p..end]));
    }
    Some(out)
}
fn report<T: std::fmt::Debug>(c: &mut Case, op: &str, got: &T, want: Vec<f64>, fields: &[(&str, usize)]) {
    let t = format!("{got:?}");
    let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()));
    let ok = if let (true, Some(g)) = (!fields.is_empty(), shown(&t, fields)) {
        same(&g, &want)
    } else {
        let mut g = numbers(&t);
        let mut w = want.clone();
        if !fields.is_empty() {
            g.sort_by(f64::total_cmp);
            w.sort_by(f64::total_cmp);
        }
        same(&g, &w)
    };
    c.truth_with(op, ok, || format!("{t} for components {want:?}"));
}

/// Fills of n components: bases and every single (and, in depth, every pair of) deviation.
fn fills(n: usize, deep: bool, f32s: bool) -> Vec<(Vec<f64>, Vec<Vec<f64>>)> {
    let bump = |x: f64, k: u32| if f32s { f32::from_bits((x as f32).to_bits() + k) as f64 } else { f64::from_bits(x.to_bits() + k as u64) };
    let mut out = Vec::new();
    for (sign, mag) in [(1.0, 1.0), (-1.0, 1024.0), (1.0, 1.0 / 4096.0)] {
        let base: Vec<f64> = (0..n).map(|i| sign * mag * (i as f64 * 0.25 + 1.5) * if i % 3 == 1 { -1.0 } else { 1.0 }).collect();
        let devs: Vec<Box<dyn Fn(f64) -> f64>> = vec![
            Box::new(move |x| bump(x, 1)),
            Box::new(move |x| bump(x, 5)),
            Box::new(|x| x * (1.0 + 1.0 / 65536.0)),
            Box::new(|x| x + 0.5),
            Box::new(|x| -x),
            Box::new(|_| 0.0),
            Box::new(|_| f64::NAN),
            Box::new(|_| f64::INFINITY),
        ];
        let mut v = vec![base.clone()];
        for i in 0..n {
            for d in &devs {
                let mut x = base.clone();
                x[i] = d(x[i]);
                v.push(x);
            }
            for j in 0..n {
                if i != j && (deep || (i + 1) % n == j) {
                    let mut x = base.clone();
                    x[i] += 0.25 * mag;
                    x[j] = bump(x[j], 3);
                    v.push(x);
                }
            }
        }
        // everything deviates by a different amount
        v.push(base.iter().enumerate().map(|(i, x)| x * (1.0 + (i as f64 + 1.0) / 1024.0)).collect());
        v.push(base.iter().enumerate().map(|(i, x)| x * (1.0 + ((n - i) as f64) / 1024.0)).collect());
        out.push((base, v));
    }
    out
}

macro_rules! subject {
    ($ctx:expr, $label:expr, $t:ident, $u:ident, pairs: $pairs:expr, flat: $flat:expr, tol: $tol:expr, utol: $utol:expr, fields: $fields:expr) => {{
        let pairs = $pairs;
        let flat = $flat;
        let tol = $tol;
        let utol = $utol;
        let fields: &[(&str, usize)] = &$fields;
        let label: String = $label;
        $ctx.bound(&format!("{label}: {} pairs of values, every tolerance at, just below and just above each component's deviation, uniform and for each component alone", pairs.len()));
        $ctx.par(&label, pairs.len(), |pi, s| {
            let (a, b) = &pairs[pi];
            let (fa, fb): (Vec<$t>, Vec<$t>) = (flat(a), flat(b));
            let n = fa.len();
            s.case(|| format!("{fa:?} with {fb:?}"), |c| {
                let huge: $t = 1e30;
                let d: Vec<$t> = (0..n).map(|i| (fa[i] - fb[i]).abs()).collect();
                let rel: Vec<$t> = (0..n).map(|i| d[i] / fa[i].abs().max(fb[i].abs())).collect();
                let ulp: Vec<Option<$u>> = (0..n).map(|i| AssertUlpsEq::debug_ulps_diff(&fa[i], &fb[i])).collect();
                let around = |x: $t| if x.is_finite() { vec![0.0, x, x * 0.99, x * 1.01] } else { vec![0.0, 1.0] };
                let uaround = |x: Option<$u>| match x { Some(k) => vec![0, k, k.saturating_sub(1), k.saturating_add(1)], None => vec![0, $u::MAX] };
                let mut ts: Vec<$t> = d.iter().flat_map(|x| around(*x)).collect();
                ts.sort_by($t::total_cmp);
                ts.dedup();
                for t in &ts {
                    let w = (0..n).all(|i| AbsDiffEq::abs_diff_eq(&fa[i], &fb[i], t));
                    c.same("abs_diff_eq", AbsDiffEq::abs_diff_eq(a, b, &tol(&vec![*t; n])), w);
                    c.same("abs_diff_ne", AbsDiffEq::abs_diff_ne(a, b, &tol(&vec![*t; n])), !w);
                    c.same("abs_diff_all_eq", AbsDiffAllEq::abs_diff_all_eq(a, b, t), w);
                    c.same("abs_diff_all_ne", AbsDiffAllEq::abs_diff_all_ne(a, b, t), !w);
                    c.same("relative_eq by absolute tolerance", RelativeEq::relative_eq(a, b, &tol(&vec![*t; n]), &tol(&vec![0.0; n])), (0..n).all(|i| RelativeEq::relative_eq(&fa[i], &fb[i], t, &0.0)));
                    c.same("relative_all_eq by absolute tolerance", RelativeAllEq::relative_all_eq(a, b, t, &0.0), (0..n).all(|i| RelativeEq::relative_eq(&fa[i], &fb[i], t, &0.0)));
                    c.same("ulps_eq by absolute tolerance", UlpsEq::ulps_eq(a, b, &tol(&vec![*t; n]), &utol(&vec![0; n])), (0..n).all(|i| UlpsEq::ulps_eq(&fa[i], &fb[i], t, &0)));
                    c.same("ulps_all_eq by absolute tolerance", UlpsAllEq::ulps_all_eq(a, b, t, &0), (0..n).all(|i| UlpsEq::ulps_eq(&fa[i], &fb[i], t, &0)));
                }
                let mut rs: Vec<$t> = rel.iter().flat_map(|x| around(*x)).collect();
                rs.sort_by($t::total_cmp);
                rs.dedup();
                for t in &rs {
                    let w = (0..n).all(|i| RelativeEq::relative_eq(&fa[i], &fb[i], &0.0, t));
                    c.same("relative_eq", RelativeEq::relative_eq(a, b, &tol(&vec![0.0; n]), &tol(&vec![*t; n])), w);
                    c.same("relative_ne", RelativeEq::relative_ne(a, b, &tol(&vec![0.0; n]), &tol(&vec![*t; n])), !w);
                    c.same("relative_all_eq", RelativeAllEq::relative_all_eq(a, b, &0.0, t), w);
                }
                let mut us: Vec<$u> = ulp.iter().flat_map(|x| uaround(*x)).collect();
                us.sort();
                us.dedup();
                for t in &us {
                    let w = (0..n).all(|i| UlpsEq::ulps_eq(&fa[i], &fb[i], &0.0, t));
                    c.same("ulps_eq", UlpsEq::ulps_eq(a, b, &tol(&vec![0.0; n]), &utol(&vec![*t; n])), w);
                    c.same("ulps_ne", UlpsEq::ulps_ne(a, b, &tol(&vec![0.0; n]), &utol(&vec![*t; n])), !w);
                    c.same("ulps_all_eq", UlpsAllEq::ulps_all_eq(a, b, &0.0, t), w);
                }
                // one component decides alone: the others have room to spare
                for i in 0..n {
                    let rest = |f: &dyn Fn(usize) -> bool| (0..n).filter(|j| *j != i).all(|j| f(j));
                    let only = |x: $t| { let mut v = vec![huge; n]; v[i] = x; tol(&v) };
                    let uonly = |x: $u| { let mut v = vec![$u::MAX; n]; v[i] = x; utol(&v) };
                    for t in around(d[i]) {
                        let w = AbsDiffEq::abs_diff_eq(&fa[i], &fb[i], &t) && rest(&|j| AbsDiffEq::abs_diff_eq(&fa[j], &fb[j], &huge));
                        c.same("abs_diff_eq, one component", AbsDiffEq::abs_diff_eq(a, b, &only(t)), w);
                        let w = RelativeEq::relative_eq(&fa[i], &fb[i], &t, &0.0) && rest(&|j| RelativeEq::relative_eq(&fa[j], &fb[j], &huge, &0.0));
                        c.same("relative_eq, one component", RelativeEq::relative_eq(a, b, &only(t), &tol(&vec![0.0; n])), w);
                        let w = UlpsEq::ulps_eq(&fa[i], &fb[i], &t, &0) && rest(&|j| UlpsEq::ulps_eq(&fa[j], &fb[j], &huge, &0));
                        c.same("ulps_eq, one component", UlpsEq::ulps_eq(a, b, &only(t), &utol(&vec![0; n])), w);
                    }
                    for t in around(rel[i]) {
                        let w = RelativeEq::relative_eq(&fa[i], &fb[i], &0.0, &t) && rest(&|j| RelativeEq::relative_eq(&fa[j], &fb[j], &0.0, &huge));
                        c.same("relative_eq, one relative tolerance", RelativeEq::relative_eq(a, b, &tol(&vec![0.0; n]), &only(t)), w);
                    }
                    for t in uaround(ulp[i]) {
                        let w = UlpsEq::ulps_eq(&fa[i], &fb[i], &0.0, &t) && rest(&|j| UlpsEq::ulps_eq(&fa[j], &fb[j], &0.0, &$u::MAX));
                        c.same("ulps_eq, one ulps tolerance", UlpsEq::ulps_eq(a, b, &tol(&vec![0.0; n]), &uonly(t)), w);
                        let w = UlpsEq::ulps_eq(&fa[i], &fb[i], &0.0, &t) && rest(&|j| UlpsEq::ulps_eq(&fa[j], &fb[j], &huge, &0));
                        let mut z = vec![0; n];
                        z[i] = t;
                        c.same("ulps_eq, one ulps tolerance, others absolute", UlpsEq::ulps_eq(a, b, &only(0.0), &utol(&z)), w);
                    }
                }
                // the reports shown when an assertion fails
                let tt: Vec<$t> = (0..n).map(|i| (i as $t + 1.0) * 0.125).collect();
                let uu: Vec<$u> = (0..n).map(|i| 3 + 2 * i as $u).collect();
                let uw: Vec<f64> = uu.iter().map(|x| *x as f64).collect();
                let ud: Vec<f64> = ulp.iter().map(|x| x.map_or(f64::NAN, |k| k as f64)).collect();
                let rt: Vec<f64> = (0..n).map(|i| AssertRelativeEq::debug_relative_tolerance(&fa[i], &fb[i], &tt[i]) as f64).collect();
                let rt1: Vec<f64> = (0..n).map(|i| AssertRelativeEq::debug_relative_tolerance(&fa[i], &fb[i], &0.375) as f64).collect();
                let short = |v: &[$t]| v.iter().map(|x| format!("{x:?}").parse::<f64>().unwrap()).collect::<Vec<f64>>();
                let sh = |v: &[f64]| short(&v.iter().map(|x| *x as $t).collect::<Vec<_>>());
                report(c, "debug_abs_diff", &AssertAbsDiffEq::debug_abs_diff(a, b), short(&d), fields);
                report(c, "debug_abs_diff (relative)", &AssertRelativeEq::debug_abs_diff(a, b), short(&d), fields);
                report(c, "debug_abs_diff (ulps)", &AssertUlpsEq::debug_abs_diff(a, b), short(&d), fields);
                report(c, "debug_ulps_diff", &AssertUlpsEq::debug_ulps_diff(a, b), ud.clone(), fields);
                report(c, "debug_abs_diff_tolerance", &AssertAbsDiffEq::debug_abs_diff_tolerance(a, b, &tol(&tt)), short(&tt), fields);
                report(c, "debug_abs_diff_tolerance (relative)", &AssertRelativeEq::debug_abs_diff_tolerance(a, b, &tol(&tt)), short(&tt), fields);
                report(c, "debug_abs_diff_tolerance (ulps)", &AssertUlpsEq::debug_abs_diff_tolerance(a, b, &tol(&tt)), short(&tt), fields);
                report(c, "debug_relative_tolerance", &AssertRelativeEq::debug_relative_tolerance(a, b, &tol(&tt)), sh(&rt), fields);
                report(c, "debug_ulps_tolerance", &AssertUlpsEq::debug_ulps_tolerance(a, b, &utol(&uu)), uw.clone(), fields);
                report(c, "debug_abs_diff_all_tolerance", &AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(a, b, &0.375), vec![0.375; n], fields);
                report(c, "debug_abs_diff_all_tolerance (relative)", &AssertRelativeAllEq::debug_abs_diff_all_tolerance(a, b, &0.375), vec![0.375; n], fields);
                report(c, "debug_abs_diff_all_tolerance (ulps)", &AssertUlpsAllEq::debug_abs_diff_all_tolerance(a, b, &0.375), vec![0.375; n], fields);
                report(c, "debug_relative_all_tolerance", &AssertRelativeAllEq::debug_relative_all_tolerance(a, b, &0.375), sh(&rt1), fields);
                report(c, "debug_ulps_all_tolerance", &AssertUlpsAllEq::debug_ulps_all_tolerance(a, b, &7), vec![7.0; n], fields);
            });
        });
    }};
}

fn pairs_of<T, S: Copy>(n: usize, deep: bool, f32s: bool, conv: impl Fn(f64) -> S, build: impl Fn(&[S]) -> T) -> Vec<(T, T)> {
    let mut out = Vec::new();
    for (base, v) in fills(n, deep, f32s) {
        let mk = |x: &[f64]| build(&x.iter().map(|y| conv(*y)).collect::<Vec<S>>());
        for x in &v {
            out.push((mk(&base), mk(x)));
            out.push((mk(x), mk(&base)));
        }
        let last = v.len() - 1;
        out.push((mk(&v[last]), mk(&v[last - 1])));
        out.push((mk(&v[last]), mk(&v[last])));
    }
    out
}

mod of64 {
    use super::*;
    type F = f64;
    type U = u64;
    const NAME: &str = "f64";
    const IS32: bool = false;
    include!("../c30_body.rs");
}
mod of32 {
    use super::*;
    type F = f32;
    type U = u32;
    const NAME: &str = "f32";
    const IS32: bool = true;
    include!("../c30_body.rs");
}

fn main() {
    let ctx = Ctx::start("C30");
    ctx.assume("the comparison of two scalars is the approx_cmp crate's; the stand-in for it defines the three scalar comparisons");
    of64::run(&ctx);
    of32::run(&ctx);
    ctx.finish();
}
