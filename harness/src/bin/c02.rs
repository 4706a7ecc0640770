//! C02: the compile-time order, equality and compatibility relations are sound.
use cglmc::Ctx;
#[path = "../dims.rs"]
#[allow(dead_code)]
mod dims;
use std::collections::HashMap;

fn main() {
    let ctx = Ctx::start("C02");
    let (n, rows) = dims::pairs();
    let (m, quads) = dims::quads();
    ctx.bound(&format!("every ordered pair of dimensions 0..={n} and {}", dims::LIST.1));
    ctx.bound(&format!("every 4-tuple of dimensions 0..={m} for multiplication compatibility"));
    ctx.section("equality", |s| {
        for r in &rows {
            s.case(|| format!("dimensions ({}, {})", r.a, r.b), |c| {
                c.same("equality holds exactly on equal dimensions", r.eq, r.a == r.b);
                if r.eq {
                    c.same("the representative of an equality is that dimension", r.eq_rep, Some(r.a));
                }
            });
        }
    });
    ctx.section("order", |s| {
        for r in &rows {
            s.case(|| format!("dimensions ({}, {})", r.a, r.b), |c| {
                c.same("strict order holds only when smaller", !r.lt || r.a < r.b, true);
                c.same("strict order is present on 0..=4", r.lt || !(r.a < r.b && r.b <= 4), true);
            });
        }
    });
    let lt: HashMap<(usize, usize), bool> = rows.iter().map(|r| ((r.a, r.b), r.lt)).collect();
    ctx.section("order-laws", |s| {
        for r in &rows {
            s.case(|| format!("chain through ({}, {})", r.a, r.b), |c| {
                c.same("asymmetric", r.lt && lt[&(r.b, r.a)], false);
                for k in 0..=4usize {
                    if r.a <= 4 && r.b <= 4 && r.lt && lt[&(r.b, k)] {
                        c.same("transitive", lt[&(r.a, k)], true);
                    }
                }
            });
        }
    });
    ctx.section("multiplication-compatibility", |s| {
        for q in &quads {
            s.case(|| format!("{}x{} by {}x{}", q.t[0], q.t[1], q.t[2], q.t[3]), |c| {
                c.same("a product exists exactly when the inner dimensions agree", q.mul, q.t[1] == q.t[2]);
                c.same("a transposed product exists exactly when the row counts agree", q.tr_mul, q.t[0] == q.t[2]);
            });
        }
    });
    ctx.finish();
}
