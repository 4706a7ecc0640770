//! C28: inverse transformations.
use cglmc::*;
#[path = "../other.rs"]
mod other;
use std::collections::HashSet;

macro_rules! dims {
    ($f:ident, $m:ident, $label:literal, $tol:expr) => {
        fn $f(ctx: &Ctx) {
            use cglmc::xf::$m::*;
            let deep = ctx.thorough();
            let menu = Entry::menu(deep);
            let pr = probes(deep);
            let tol: f64 = $tol;
            let size = |m: &H| m.iter().flatten().fold(1.0_f64, |a, b| a.max(b.abs()));
            ctx.bound(&format!(concat!($label, ": {} transformations of 8 kinds and all products of two of them that exist, on {} points and vectors each"), menu.len(), pr.len()));
            let check = |c: &mut Case, k: &K, m: &H, vec: bool, pr: &[A], z: f64, o: f64| {
                // `m` is in units: lengths of z before the map, z * o after it
                let inv = model::inv(m).expect("the menu is invertible");
                let sc = size(m) * size(&inv);
                let t = tol * sc;
                let i = k.inverse();
                let (zb, ob) = (z * o, 1.0 / o);
                c.same("the inverse has the same kind", i.kind(), k.kind());
                c.close("matrix of the inverse", i.matrix_at(zb, ob), model::cols(&inv), t);
                for (n, x) in k.inverse_forms() {
                    c.close(n, x.matrix_at(zb, ob), i.matrix_at(zb, ob), tol);
                }
                c.close("the inverse of the inverse", i.inverse().matrix_at(z, o), model::cols(m), t);
                if let (Some(l), Some(r)) = (i.times(k), k.times(&i)) {
                    let id = model::cols(&model::ident::<P>());
                    for x in l.iter() {
                        c.close("composed with the inverse", x.matrix_at(z, 1.0), id, t);
                    }
                    for x in r.iter() {
                        c.close("composed with the inverse", x.matrix_at(zb, 1.0), id, t);
                    }
                }
                for p in pr {
                    // inputs of the map and of its inverse
                    let (pf, pb) = (p.map(|x| x * z), p.map(|x| x * zb));
                    let (x, v) = (pt(&pf), ve(&pf));
                    let q = k.point(&x);
                    c.scaled("inverse_apply_point after apply_point", k.inverse_point(&q), Some(pf), z, t);
                    c.scaled("inverse().apply_point after apply_point", i.point(&q), pf, z, t);
                    let q = k.vector(&v);
                    c.scaled("inverse_apply_vector after apply_vector", k.inverse_vector(&q), Some(pf), z, t);
                    c.scaled("inverse().apply_vector after apply_vector", i.vector(&q), pf, z, t);
                    let (x, v) = (pt(&pb), ve(&pb));
                    c.scaled("apply_point after inverse_apply_point", k.inverse_point(&x).map(|y| k.point(&y)), Some(pb), zb, t);
                    c.scaled("inverse_apply_point", k.inverse_point(&x), Some(xf::apply(&inv, p, 1.0).map(|x| x * z)), z, t);
                    c.scaled("apply_vector after inverse_apply_vector", k.inverse_vector(&v).map(|y| k.vector(&y)), Some(pb), zb, t);
                    if vec {
                        c.scaled("inverse_apply_vector", k.inverse_vector(&v), Some(xf::apply(&inv, p, 0.0).map(|x| x * z)), z, t);
                    }
                }
            };
            ctx.par(concat!($label, " members"), menu.len(), |i, s| {
                let e = &menu[i];
                s.case(|| e.name.clone(), |c| {
                    check(c, &e.k, &e.m, e.vec, &pr, 1.0, 1.0);
                    let g = K::G(e.k.to_transform());
                    check(c, &g, &e.m, true, &pr, 1.0, 1.0);
                });
            });
            let few: Vec<A> = pr.iter().step_by(4).copied().collect();
            let zo: &[(i32, i32)] = if tol < 1e-8 { &[(40, 0), (-40, 0), (0, 30), (0, -30), (-30, 20), (25, -25), (12, -12), (0, -60), (0, 60), (-70, 0), (70, 0), (-60, -60)] } else { &[(20, 0), (-20, 0), (0, 12), (0, -12), (-12, 8), (10, -10), (0, -28), (0, 28), (-30, 0), (30, 0)] };
            ctx.bound(&format!(concat!($label, ": the menu with lengths rescaled by 2^z and outputs by 2^o, (z, o) in {:?}"), zo));
            for &(ze, oe) in zo {
                let (z, o) = (2f64.powi(ze), 2f64.powi(oe));
                let at = Entry::menu_at(deep, z, o);
                ctx.par(&format!(concat!($label, " members at 2^{} 2^{}"), ze, oe), menu.len(), |i, s| {
                    let (e, q) = (&menu[i], &at[i]);
                    s.case(|| q.name.clone(), |c| {
                        check(c, &q.k, &e.m, e.vec, &few, z, q.k.out(o));
                        check(c, &K::G(q.k.to_transform()), &e.m, true, &few, z, q.k.out(o));
                    });
                });
            }
            ctx.par(concat!($label, " products"), menu.len(), |i, s| {
                let a = &menu[i];
                for (j, b) in menu.iter().enumerate() {
                    if !deep && (i + j) % 3 != 0 {
                        continue;
                    }
                    let Some(k) = a.k.times(&b.k) else { continue };
                    s.case(|| format!("({}) * ({})", a.name, b.name), |c| {
                        let m = model::mul(&a.m, &b.m);
                        check(c, &k[0], &m, true, &few, 1.0, 1.0);
                        // the inverse of a product is the product of the inverses in the other order
                        if let Some(x) = b.k.inverse().times(&a.k.inverse()) {
                            let inv = model::inv(&m).unwrap();
                            c.close("product of the inverses", x[3].matrix(), model::cols(&inv), tol * size(&m) * size(&inv));
                        }
                    });
                }
            });
            // parts and points with components of very different sizes: every component to the size of its own terms
            let mixed = Entry::mixed();
            let mp = Entry::mixed_probes();
            let fine = if tol < 1e-8 { 1e-14 } else { 5e-6 };
            ctx.bound(&format!(concat!($label, ": {} transformations with parts of mixed sizes (2^-32 .. 2^30 and beside 1) on {} points and vectors of mixed sizes"), mixed.len(), mp.len()));
            ctx.par(concat!($label, " mixed sizes"), mixed.len(), |i, s| {
                let x = &mixed[i];
                s.case(|| x.e.name.clone(), |c| {
                    let inv = x.e.k.inverse();
                    for (j, p) in mp.iter().enumerate() {
                        if !deep && (i + j) % 3 != 0 {
                            continue;
                        }
                        let a = p.map(f64::abs);
                        let (w, z) = (xf::apply(&x.inv, p, 1.0), xf::apply(&x.binv, &a, 1.0));
                        let (wv, zv) = (xf::apply(&x.inv, p, 0.0), xf::apply(&x.binv, &a, 0.0));
                        let g = x.e.k.inverse_point(&pt(p)).unwrap();
                        let h = inv.point(&pt(p));
                        let gv = x.e.k.inverse_vector(&ve(p)).unwrap();
                        let hv = inv.vector(&ve(p));
                        for q in 0..N {
                            c.scaled("component of inverse_apply_point", g[q], w[q], z[q], fine);
                            c.scaled("component of inverse().apply_point", h[q], w[q], z[q], fine);
                            if x.e.vec {
                                c.scaled("component of inverse_apply_vector", gv[q], wv[q], zv[q], fine);
                                c.scaled("component of inverse().apply_vector", hv[q], wv[q], zv[q], fine);
                            }
                        }
                    }
                });
            });
            // transforms that are not affine
            let proj = projective();
            ctx.bound(&format!(concat!($label, ": {} projective general transforms"), proj.len()));
            ctx.par(concat!($label, " projective"), proj.len(), |i, s| {
                let (n, t, m) = &proj[i];
                s.case(|| n.clone(), |c| {
                    let inv = model::inv(m).unwrap();
                    let tt = tol * size(m) * size(&inv);
                    let k = t.inverse();
                    c.close("matrix of the inverse", k.to_matrix(), model::cols(&inv), tt);
                    c.close("try_inverse", t.try_inverse().map(|x| x.to_matrix()), Some(model::cols(&inv)), tt);
                    let id = model::cols(&model::ident::<P>());
                    c.close("composed with the inverse", (t * k).to_matrix(), id, tt);
                    c.close("composed with the inverse", (k * t).to_matrix(), id, tt);
                    for p in &pr {
                        if let Some(q) = project(m, p) {
                            let a = t.apply_point(&pt(p));
                            let big = q.iter().fold(1.0_f64, |a, b| a.max(b.abs()));
                            c.close("apply_point", a, q, tt * big);
                            if project(&inv, &q).is_some() {
                                c.close("inverse_apply_point after apply_point", t.inverse_apply_point(&a), Some(*p), tt * big * 64.0);
                                c.close("inverse().apply_point after apply_point", k.apply_point(&a), *p, tt * big * 64.0);
                            }
                        }
                        if let Some(q) = project(&inv, p) {
                            let big = q.iter().fold(1.0_f64, |a, b| a.max(b.abs()));
                            c.close("inverse_apply_point", t.inverse_apply_point(&pt(p)), Some(q), tt * big * 8.0);
                        }
                        c.close("apply_vector", t.apply_vector(&ve(p)), xf::apply(m, p, 0.0), tt);
                        c.close("inverse_apply_vector", t.inverse_apply_vector(&ve(p)), Some(xf::apply(&inv, p, 0.0)), tt);
                    }
                });
            });
            // histories of in-place inverses and compositions, breadth first
            let gens: Vec<&Entry> = menu.iter().filter(|e| matches!(e.k, K::T(_) | K::R(_) | K::I(_) | K::M(_))).enumerate().filter(|(i, _)| i % 9 == 2).map(|(_, e)| e).take(if deep { 12 } else { 7 }).collect();
            let depth = ctx.grade(3, 4, 5);
            ctx.bound(&format!(concat!($label, ": histories of inverting in place, inverting and composing with {} generators up to depth {}"), gens.len(), depth));
            ctx.section(concat!($label, " histories"), |s| {
                let key = |k: &K, m: &H| (k.kind(), m.iter().flatten().map(|x| (x * 1048576.0).round() as i64).collect::<Vec<_>>());
                let mut seen: HashSet<(&'static str, Vec<i64>)> = HashSet::new();
                let mut level: Vec<(K, H, String)> = gens.iter().map(|g| (g.k.clone(), g.m, g.name.clone())).collect();
                let (mut states, mut trans) = (0u64, 0u64);
                for _ in 0..depth {
                    let mut next = Vec::new();
                    for (k, m, h) in &level {
                        let inv = model::inv(m).unwrap();
                        let mut succ: Vec<(K, H, String)> = k.inverse_forms().into_iter().map(|(n, x)| (x, inv, format!("{h}; {n}"))).collect();
                        succ.push((k.inverse(), inv, format!("{h}; inverse")));
                        for g in &gens {
                            if let Some(x) = k.times(&g.k) {
                                succ.push((x[0].clone(), model::mul(m, &g.m), format!("{h}; * {}", g.name)));
                            }
                        }
                        for (x, w, n) in succ {
                            trans += 1;
                            s.case(|| n.clone(), |c| {
                                c.close("matrix reached", x.matrix(), model::cols(&w), tol * size(&w) * size(m) * 8.0);
                            });
                            if seen.insert(key(&x, &w)) {
                                states += 1;
                                next.push((x, w, n));
                            }
                        }
                    }
                    level = next;
                }
                s.search(states, trans);
            });
            // singular general transforms have no inverse
            ctx.section(concat!($label, " singular"), |s| {
                for e in &menu {
                    for z in 0..N {
                        s.case(|| format!("({}) with axis {z} collapsed", e.name), |c| {
                            let mut flat = model::ident::<P>();
                            flat[z][z] = 0.0;
                            // a column of exact zeros
                            let m = model::mul(&e.m, &flat);
                            let k = general("singular".into(), &m).k;
                            let K::G(t) = &k else { unreachable!() };
                            c.truth("try_inverse is absent", t.try_inverse().is_none());
                            let p: A = grid::distinct::<N>(2);
                            c.truth("inverse_apply_point is absent", k.inverse_point(&pt(&p)).is_none());
                            c.truth("inverse_apply_vector is absent", k.inverse_vector(&ve(&p)).is_none());
                        });
                    }
                }
            });
        }
    };
}
dims!(run_d3, d3, "3d f64", 1e-12);
dims!(run_d2, d2, "2d f64", 1e-12);
dims!(run_s3, s3, "3d f32", 3e-5);
dims!(run_s2, s2, "2d f32", 3e-5);

fn main() {
    let ctx = Ctx::start("C28");
    run_d3(&ctx);
    run_d2(&ctx);
    run_s3(&ctx);
    run_s2(&ctx);
    other::inverses::<1>(&ctx);
    other::inverses::<4>(&ctx);
    other::inverses::<5>(&ctx);
    ctx.bound("inverses in one, four and five dimensions where the kinds allow them");
    ctx.finish();
}
