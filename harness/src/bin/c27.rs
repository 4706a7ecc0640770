//! C27: composing transformations.
use cglmc::*;
#[path = "../other.rs"]
mod other;
use std::collections::{HashMap, HashSet};

macro_rules! dims {
    ($f:ident, $m:ident, $label:literal, $tol:expr) => {
        fn $f(ctx: &Ctx) {
            use cglmc::xf::$m::*;
            let deep = ctx.thorough();
            let menu = Entry::menu(deep);
            let pr = probes(false);
            let tol: f64 = $tol;
            let size = |m: &H| m.iter().flatten().fold(1.0_f64, |a, b| a.max(b.abs()));
            ctx.bound(&format!(concat!($label, ": all ordered pairs of {} transformations of 8 kinds, on {} points and vectors each, in four operand forms"), menu.len(), pr.len()));
            // operators and application agree with the homogeneous matrix
            ctx.par(concat!($label, " application"), menu.len(), |i, s| {
                let e = &menu[i];
                s.case(|| e.name.clone(), |c| {
                    for p in &pr {
                        let (x, v) = (pt(p), ve(p));
                        let w = xf::apply(&e.m, p, 1.0);
                        c.close("apply_point", e.k.point(&x), w, tol);
                        for g in e.k.star_point(&x) {
                            c.close("transformation * point", g, w, tol);
                        }
                        let a = e.k.vector(&v);
                        if e.vec {
                            c.close("apply_vector", a, xf::apply(&e.m, p, 0.0), tol);
                        }
                        for g in e.k.star_vector(&v) {
                            c.close("transformation * vector", g, a, tol);
                        }
                    }
                });
            });
            // parts with components of very different sizes: every entry of the product to the size of its own terms
            let mixed = Entry::mixed();
            let step = ctx.pick(13, 5);
            let fine = if tol < 1e-8 { 1e-14 } else { 5e-6 };
            ctx.bound(&format!(concat!($label, ": products of {} transformations with parts of mixed sizes (2^-32 .. 2^30 and beside 1) with every {}th of them"), mixed.len(), step));
            ctx.par(concat!($label, " products of mixed sizes"), mixed.len(), |i, s| {
                let a = &mixed[i];
                for b in mixed.iter().skip(i % step).step_by(step) {
                    let Some(forms) = a.e.k.times(&b.e.k) else { continue };
                    s.case(|| format!("({}) * ({})", a.e.name, b.e.name), |c| {
                        let want = model::mul(&a.e.m, &b.e.m);
                        let size = model::mul(&a.b, &b.b);
                        let m = [forms[0].matrix(), forms[1].matrix(), forms[2].matrix(), forms[3].matrix()];
                        for r in 0..=N {
                            for q in 0..=N {
                                c.scaled("entry of the matrix of the product", [m[0][q][r], m[1][q][r], m[2][q][r], m[3][q][r]], [want[r][q]; 4], size[r][q], fine);
                            }
                        }
                    });
                }
            });
            // every product that exists, on every pair
            ctx.par(concat!($label, " products"), menu.len(), |i, s| {
                let a = &menu[i];
                for b in &menu {
                    let Some(forms) = a.k.times(&b.k) else { continue };
                    s.case(|| format!("({}) * ({})", a.name, b.name), |c| {
                        let want = model::mul(&a.m, &b.m);
                        let sc = size(&a.m) * size(&b.m);
                        for k in &forms {
                            c.close("matrix of the product", k.matrix(), model::cols(&want), tol * sc);
                        }
                        let k = &forms[3];
                        for p in pr.iter().step_by(2) {
                            let (x, v) = (pt(p), ve(p));
                            c.close("product on a point", k.point(&x), xf::apply(&want, p, 1.0), tol * sc);
                            c.close("one after the other on a point", a.k.point(&b.k.point(&x)), xf::apply(&want, p, 1.0), tol * sc);
                            c.close("product on a vector", k.vector(&v), xf::apply(&want, p, 0.0), tol * sc);
                            if a.vec && b.vec {
                                c.close("one after the other on a vector", a.k.vector(&b.k.vector(&v)), xf::apply(&want, p, 0.0), tol * sc);
                            }
                        }
                    });
                }
            });
            // every pair of kinds through general transforms
            ctx.par(concat!($label, " general"), menu.len(), |i, s| {
                let a = &menu[i];
                for b in menu.iter().skip(i % 3).step_by(if deep { 1 } else { 3 }) {
                    s.case(|| format!("({}) * ({}) as transforms", a.name, b.name), |c| {
                        let want = model::mul(&a.m, &b.m);
                        let sc = size(&a.m) * size(&b.m);
                        let (x, y) = (K::G(a.k.to_transform()), K::G(b.k.to_transform()));
                        for k in x.times(&y).unwrap() {
                            c.close("product of transforms", k.matrix(), model::cols(&want), tol * sc);
                        }
                    });
                }
            });
            // the same at other magnitudes: lengths in units of z, and a uniform scale o after the left factor
            let zo: &[(i32, i32)] = if tol < 1e-8 { &[(40, 0), (-40, 0), (0, 30), (0, -30), (-30, 20), (25, -25), (12, -12), (0, -60), (0, 60), (-70, 0), (70, 0), (-60, -60)] } else { &[(20, 0), (-20, 0), (0, 12), (0, -12), (-12, 8), (10, -10), (0, -28), (0, 28), (-30, 0), (30, 0)] };
            ctx.bound(&format!(concat!($label, ": the menu and the existing products with lengths rescaled by 2^z and outputs by 2^o, (z, o) in {:?}"), zo));
            for &(ze, oe) in zo {
                let (z, o) = (2f64.powi(ze), 2f64.powi(oe));
                let (left, right) = (Entry::menu_at(deep, z, o), Entry::menu_at(deep, z, 1.0));
                let far = Entry::menu_at(deep, z * o, 1.0);
                let pz: Vec<A> = pr.iter().step_by(ctx.pick(4, 1)).map(|p| p.map(|x| x * z)).collect();
                ctx.par(&format!(concat!($label, " application at 2^{} 2^{}"), ze, oe), menu.len(), |i, s| {
                    let (e, q) = (&menu[i], &left[i]);
                    let u = z * q.k.out(o);
                    let t = tol * size(&e.m);
                    s.case(|| q.name.clone(), |c| {
                        for p in &pz {
                            let (x, v) = (pt(p), ve(p));
                            let w = xf::apply(&e.m, &p.map(|x| x / z), 1.0).map(|x| x * u);
                            c.scaled("apply_point", q.k.point(&x), w, u, t);
                            for g in q.k.star_point(&x) {
                                c.scaled("transformation * point", g, w, u, t);
                            }
                            let a = q.k.vector(&v);
                            if q.vec {
                                c.scaled("apply_vector", a, xf::apply(&e.m, &p.map(|x| x / z), 0.0).map(|x| x * u), u, t);
                            }
                            for g in q.k.star_vector(&v) {
                                c.scaled("transformation * vector", g, a, u, t);
                            }
                        }
                    });
                });
                let step = if deep { 1 } else { 5 };
                ctx.par(&format!(concat!($label, " products at 2^{} 2^{}"), ze, oe), menu.len(), |i, s| {
                    for j in (i % step..menu.len()).step_by(step) {
                        let (a, b) = (&left[i], &right[j]);
                        let Some(forms) = a.k.times(&b.k) else { continue };
                        s.case(|| format!("({}) * ({})", a.name, b.name), |c| {
                            let want = model::mul(&menu[i].m, &menu[j].m);
                            let sc = size(&menu[i].m) * size(&menu[j].m);
                            for k in &forms {
                                c.close("matrix of the product", k.matrix_at(z, a.k.out(o)), model::cols(&want), tol * sc);
                            }
                        });
                        // the right factor rescales, the left one works in the new units
                        let (a, b) = (&far[i], &left[j]);
                        if oe == 0 || b.k.out(o) == 1.0 {
                            continue;
                        }
                        let Some(forms) = a.k.times(&b.k) else { continue };
                        s.case(|| format!("({}) * ({})", a.name, b.name), |c| {
                            let want = model::mul(&menu[i].m, &menu[j].m);
                            let sc = size(&menu[i].m) * size(&menu[j].m);
                            for k in &forms {
                                c.close("matrix of the product", k.matrix_at(z, o), model::cols(&want), tol * sc);
                            }
                        });
                    }
                });
            }
            // transforms that are not affine
            let proj = projective();
            ctx.bound(&format!(concat!($label, ": {} projective general transforms and all products of them and with the menu"), proj.len()));
            ctx.par(concat!($label, " projective products"), proj.len(), |i, s| {
                let (an, at, am) = &proj[i];
                let others = proj.iter().map(|(n, t, m)| (n.clone(), t.clone(), *m)).chain(menu.iter().step_by(if deep { 1 } else { 7 }).map(|e| (e.name.clone(), e.k.to_transform(), e.m)));
                for (bn, bt, bm) in others {
                    s.case(|| format!("({an}) * ({bn})"), |c| {
                        let want = model::mul(am, &bm);
                        let sc = size(am) * size(&bm);
                        for k in K::G(at.clone()).times(&K::G(bt.clone())).unwrap() {
                            c.close("matrix of the product", k.matrix(), model::cols(&want), tol * sc);
                        }
                        for k in K::G(bt.clone()).times(&K::G(at.clone())).unwrap() {
                            c.close("matrix of the other product", k.matrix(), model::cols(&model::mul(&bm, am)), tol * sc);
                        }
                        let k = at * bt;
                        for p in pr.iter() {
                            let Some(q) = project(&bm, p) else { continue };
                            let Some(w) = project(am, &q) else { continue };
                            if project(&want, p).is_none() {
                                continue;
                            }
                            c.close("product on a point", k.apply_point(&pt(p)), w, tol * sc * 64.0);
                            c.close("one after the other on a point", at.apply_point(&bt.apply_point(&pt(p))), w, tol * sc * 64.0);
                        }
                    });
                }
            });
            // identities are neutral
            ctx.section(concat!($label, " identities"), |s| {
                for e in &menu {
                    s.case(|| e.name.clone(), |c| {
                        if let Some(id) = e.k.identity_like() {
                            let w = model::cols(&e.m);
                            c.eq("identity", id.matrix(), model::cols(&model::ident::<P>()));
                            for k in id.times(&e.k).unwrap() {
                                c.close("identity * x", k.matrix(), w, tol);
                            }
                            for k in e.k.times(&id).unwrap() {
                                c.close("x * identity", k.matrix(), w, tol);
                            }
                        }
                    });
                }
            });
            // all triples of a small non-commuting set: composition is associative
            let small: Vec<&Entry> = menu.iter().filter(|e| !matches!(e.k, K::F(_) | K::H(_))).enumerate().filter(|(i, _)| i % (if deep { 4 } else { 7 }) == 1).map(|(_, e)| e).collect();
            ctx.par(concat!($label, " triples"), small.len(), |i, s| {
                for b in &small {
                    for d in &small {
                        let a = small[i];
                        let left = a.k.times(&b.k).and_then(|k| k[3].times(&d.k).map(|k| k[0].clone()));
                        let right = b.k.times(&d.k).and_then(|k| a.k.times(&k[3]).map(|k| k[0].clone()));
                        if left.is_none() && right.is_none() {
                            continue;
                        }
                        s.case(|| format!("({}) * ({}) * ({})", a.name, b.name, d.name), |c| {
                            let w = model::mul(&model::mul(&a.m, &b.m), &d.m);
                            let sc = size(&a.m) * size(&b.m) * size(&d.m);
                            for k in [left, right].into_iter().flatten() {
                                c.close("triple product", k.matrix(), model::cols(&w), tol * sc);
                            }
                        });
                    }
                }
            });
            // breadth first search over composition histories
            let gens = generators();
            let depth = ctx.grade(3, if N == 2 { 6 } else { 4 }, if N == 2 { 8 } else { 5 });
            ctx.bound(&format!(concat!($label, ": composition histories of {} generators (quarter turns, unit translations, isometries, doubling) up to depth {}, on the left and on the right"), gens.len(), depth));
            ctx.section(concat!($label, " histories"), |s| {
                let key = |k: &K, m: &H| (k.kind(), m.iter().flatten().map(|x| (x * 64.0).round() as i64).collect::<Vec<_>>());
                let mut seen: HashSet<(&'static str, Vec<i64>)> = HashSet::new();
                let mut level: Vec<(K, H, String)> = gens.iter().map(|g| (g.k.clone(), g.m, g.name.clone())).collect();
                let mut states = 0u64;
                let mut trans = 0u64;
                for _ in 0..depth {
                    let mut next: HashMap<(&'static str, Vec<i64>), (K, H, String)> = HashMap::new();
                    for (k, m, h) in &level {
                        for g in &gens {
                            for right in [true, false] {
                                let (prod, want) = if right { (k.times(&g.k), model::mul(m, &g.m)) } else { (g.k.times(k), model::mul(&g.m, m)) };
                                let Some(forms) = prod else { continue };
                                trans += 1;
                                let name = || if right { format!("{h} * {}", g.name) } else { format!("{} * ({h})", g.name) };
                                s.case(name, |c| {
                                    let sc = size(&want) * size(m);
                                    c.close("composed matrix", forms[3].matrix(), model::cols(&want), tol * sc);
                                    let p: A = grid::distinct::<N>(1);
                                    c.close("composed on a point", forms[0].point(&pt(&p)), xf::apply(&want, &p, 1.0), tol * sc);
                                    c.close("composed on a vector", forms[1].vector(&ve(&p)), xf::apply(&want, &p, 0.0), tol * sc);
                                });
                                let kk = key(&forms[3], &want);
                                if seen.insert(kk.clone()) {
                                    states += 1;
                                    next.insert(kk, (forms[3].clone(), want, name()));
                                }
                            }
                        }
                    }
                    level = next.into_values().collect();
                    level.sort_by(|a, b| a.2.cmp(&b.2));
                    if level.is_empty() {
                        break;
                    }
                }
                s.search(states, trans);
            });
        }
    };
}
macro_rules! gens3 {
    ($m:ident) => {{
        use cglmc::xf::$m::*;
        let rx = Entry::rotation(&[1.0, 0.0, 0.0], 90.0);
        let rz = Entry::rotation(&[0.0, 0.0, 1.0], 90.0);
        let z = Entry::rotation(&[0.0, 0.0, 1.0], 0.0);
        vec![
            translation(&[1.0, 0.0, 0.0]),
            translation(&[0.0, -1.0, 2.0]),
            isometry(&rz, &[0.0, 1.0, 0.0]),
            similarity(&rx, &[1.0, 0.0, -1.0], 2.0),
            similarity(&z, &[0.0, 0.0, 1.0], 0.5),
            general("transform".into(), &[[1.0, 2.0, 0.0, 1.0], [0.0, 1.0, 0.0, -1.0], [0.0, 0.0, -1.0, 0.0], [0.0, 0.0, 0.0, 1.0]]),
            rx,
            rz,
        ]
    }};
}
macro_rules! gens2 {
    ($m:ident) => {{
        use cglmc::xf::$m::*;
        let r = Entry::rotation(90.0);
        vec![
            translation(&[1.0, 0.0]),
            translation(&[-1.0, 2.0]),
            isometry(&r, &[0.0, 1.0]),
            similarity(&r, &[1.0, -1.0], 2.0),
            similarity(&r, &[0.0, 1.0], 0.5),
            general("transform".into(), &[[1.0, 2.0, 1.0], [0.0, 1.0, -1.0], [0.0, 0.0, 1.0]]),
            r,
        ]
    }};
}
mod a3 {
    use super::*;
    fn generators() -> Vec<xf::d3::Entry> {
        gens3!(d3)
    }
    dims!(run_d3, d3, "3d f64", 1e-12);
    pub fn run(c: &Ctx) {
        run_d3(c)
    }
}
mod a2 {
    use super::*;
    fn generators() -> Vec<xf::d2::Entry> {
        gens2!(d2)
    }
    dims!(run_d2, d2, "2d f64", 1e-12);
    pub fn run(c: &Ctx) {
        run_d2(c)
    }
}
mod b3 {
    use super::*;
    fn generators() -> Vec<xf::s3::Entry> {
        gens3!(s3)
    }
    dims!(run_s3, s3, "3d f32", 1e-5);
    pub fn run(c: &Ctx) {
        run_s3(c)
    }
}
mod b2 {
    use super::*;
    fn generators() -> Vec<xf::s2::Entry> {
        gens2!(s2)
    }
    dims!(run_s2, s2, "2d f32", 1e-5);
    pub fn run(c: &Ctx) {
        run_s2(c)
    }
}

fn main() {
    let ctx = Ctx::start("C27");
    ctx.assume("the vector action of a shear whose plane does not contain the origin is documented to depend on the plane and is not compared with the matrix");
    a3::run(&ctx);
    a2::run(&ctx);
    b3::run(&ctx);
    b2::run(&ctx);
    other::products1(&ctx);
    other::products4(&ctx);
    ctx.bound("products in one and four dimensions where the kinds allow them");
    ctx.finish();
}
