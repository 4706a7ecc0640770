//! C01: the compile-time dimension arithmetic is exact.
use cglmc::Ctx;
#[path = "../dims.rs"]
#[allow(dead_code)]
mod dims;
use std::collections::HashMap;

fn main() {
    let ctx = Ctx::start("C01");
    let (n, rows) = dims::pairs();
    ctx.bound(&format!("every ordered pair of dimensions 0..={n} and {}; results of any size are read back", dims::LIST.1));
    ctx.assume("the supported range that must be present is the documented one: addition and multiplication on 1..=4, subtraction wherever 1 <= N <= M <= 4");
    let sup = |x: usize| (1..=4).contains(&x);
    ctx.section("sum-difference-product", |s| {
        for r in &rows {
            s.case(|| format!("dimensions ({}, {})", r.a, r.b), |c| {
                c.same("sum is defined in the supported range", r.add.is_some() || !(sup(r.a) && sup(r.b)), true);
                c.same("difference is defined in the supported range", r.sub.is_some() || !(sup(r.a) && sup(r.b) && r.b <= r.a), true);
                c.same("product is defined in the supported range", r.mul.is_some() || !(sup(r.a) && sup(r.b)), true);
                if let Some(x) = r.add {
                    c.same("sum", x, r.a + r.b);
                }
                if let Some(x) = r.sub {
                    c.same("difference exists only when it is a dimension", r.b <= r.a, true);
                    c.same("difference", x as i64, r.a as i64 - r.b as i64);
                }
                if let Some(x) = r.mul {
                    c.same("product", x, r.a * r.b);
                }
            });
        }
    });
    ctx.section("extend-contract", |s| {
        for r in &rows {
            s.case(|| format!("dimensions ({}, {})", r.a, r.b), |c| {
                c.same("extension present exactly one up in the supported range", r.ext || !(sup(r.a) && r.b == r.a + 1), true);
                c.same("contraction present exactly one down in the supported range", r.con || !(sup(r.a) && r.b + 1 == r.a), true);
                c.same("extension raises the dimension by one", !r.ext || r.b == r.a + 1, true);
                c.same("contraction lowers the dimension by one", !r.con || r.b + 1 == r.a, true);
            });
        }
    });
    // Laws over the whole relation that was read out: histories of two operations.
    let get: HashMap<(usize, usize), dims::Row2> = rows.iter().map(|r| ((r.a, r.b), *r)).collect();
    ctx.section("two-step-laws", |s| {
        for r in &rows {
            s.case(|| format!("dimensions ({}, {})", r.a, r.b), |c| {
                c.same("pair present", true, true);
                if let (Some(x), Some(y)) = (r.add, get.get(&(r.b, r.a)).and_then(|q| q.add)) {
                    c.same("sum commutes", x, y);
                }
                if let (Some(x), Some(y)) = (r.mul, get.get(&(r.b, r.a)).and_then(|q| q.mul)) {
                    c.same("product commutes", x, y);
                }
                if let Some(x) = r.add {
                    if let Some(d) = get.get(&(x, r.b)).and_then(|q| q.sub) {
                        c.same("(a + b) - b", d, r.a);
                    }
                }
                if let Some(x) = r.sub {
                    if let Some(d) = get.get(&(x, r.b)).and_then(|q| q.add) {
                        c.same("(a - b) + b", d, r.a);
                    }
                }
                if r.ext {
                    if let Some(q) = get.get(&(r.b, r.a)) {
                        c.same("an extension can be undone where contraction exists", q.con || r.b > 4, true);
                    }
                }
            });
        }
    });
    ctx.finish();
}
