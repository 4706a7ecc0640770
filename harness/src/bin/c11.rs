//! C11: any history of in-place changes equals the same history on a plain array.
use cglinalg_core::*;
use cglmc::*;
use std::collections::HashSet;
#[path = "../gen/fields.rs"]
#[allow(dead_code)]
mod fields;

type Do<T> = Box<dyn Fn(&mut T) + Send + Sync>;
type Model = Box<dyn Fn(&mut [f64]) + Send + Sync>;
struct Op<T> {
    name: String,
    real: Do<T>,
    model: Model,
}
struct Menu<T>(Vec<Op<T>>);
impl<T> Menu<T> {
    fn op(&mut self, name: impl Into<String>, real: impl Fn(&mut T) + Send + Sync + 'static, model: impl Fn(&mut [f64]) + Send + Sync + 'static) {
        self.0.push(Op { name: name.into(), real: Box::new(real), model: Box::new(model) });
    }
}

/// Breadth-first search over histories; states are deduplicated on the model's components (the
/// containers are plain data, so equal components have equal futures).
fn search<T: Copy + Flat>(s: &mut Sec, make: impl Fn(&[f64]) -> T, init: &[f64], menu: &Menu<T>, depth: usize) {
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    let key = |m: &[f64]| m.iter().map(|x| (x + 0.0).to_bits()).collect::<Vec<u64>>();
    let mut frontier: Vec<(T, Vec<f64>, Vec<u16>)> = vec![(make(init), init.to_vec(), vec![])];
    seen.insert(key(init));
    let (mut states, mut trans) = (1u64, 0u64);
    for d in 0..depth {
        let mut next = Vec::new();
        for (t, m, h) in &frontier {
            for (k, op) in menu.0.iter().enumerate() {
                let mut m2 = m.clone();
                (op.model)(&mut m2);
                if m2.iter().any(|x| x.abs() > 1e12) {
                    continue; // keep the arithmetic exact
                }
                trans += 1;
                let mut t2 = *t;
                s.case(
                    || format!("from {init:?}: {} then {}", h.iter().map(|&i| menu.0[i as usize].name.clone()).collect::<Vec<_>>().join("; "), op.name),
                    |c| {
                        (op.real)(&mut t2);
                        c.eq("all components after the step", t2, &m2);
                    },
                );
                if d + 1 < depth && seen.insert(key(&m2)) {
                    states += 1;
                    let mut h2 = h.clone();
                    h2.push(k as u16);
                    next.push((t2, m2, h2));
                }
            }
        }
        frontier = next;
    }
    s.search(states, trans);
}

/// Operations every linear container with N components has.
macro_rules! linear_menu {
    ($menu:ident, $T:ty, $n:literal, $S:ty) => {{
        for i in 0..$n {
            $menu.op(format!("[{i}] = 7"), move |v: &mut $T| v[i] = 7.0, move |m| m[i] = 7.0);
            $menu.op(format!("[{i}] += 2"), move |v: &mut $T| v[i] += 2.0, move |m| m[i] += 2.0);
            $menu.op(format!("*as_mut_ptr()+{i} = -5"), move |v: &mut $T| unsafe { *v.as_mut_ptr().add(i) = -5.0 }, move |m| m[i] = -5.0);
            $menu.op(format!("array view [{i}] = 9"), move |v: &mut $T| { let a: &mut [$S; $n] = v.as_mut(); a[i] = 9.0; }, move |m| m[i] = 9.0);
            for j in i + 1..=$n {
                $menu.op(format!("[{i}..{j}] filled"), move |v: &mut $T| v[i..j].fill(4.0), move |m| m[i..j].fill(4.0));
                $menu.op(format!("[{i}..{j}] reversed"), move |v: &mut $T| v[i..j].reverse(), move |m| m[i..j].reverse());
            }
            $menu.op(format!("[{i}..] filled"), move |v: &mut $T| v[i..].fill(6.0), move |m| m[i..].fill(6.0));
            $menu.op(format!("[..{i}] filled"), move |v: &mut $T| v[..i].fill(-6.0), move |m| m[..i].fill(-6.0));
        }
        $menu.op("[..] reversed", |v: &mut $T| v[..].reverse(), |m| m.reverse());
        $menu.op("*= 3", |v: &mut $T| *v *= 3.0, |m| m.iter_mut().for_each(|x| *x *= 3.0));
        $menu.op("/= 2", |v: &mut $T| *v /= 2.0, |m| m.iter_mut().for_each(|x| *x /= 2.0));
        $menu.op("%= 4", |v: &mut $T| *v %= 4.0, |m| m.iter_mut().for_each(|x| *x %= 4.0));
        $menu.op("map in place", |v: &mut $T| *v = v.map(|x| x + 1.0), |m| m.iter_mut().for_each(|x| *x += 1.0));
    }};
}
fn fillv<const N: usize>(k: f64) -> [f64; N] {
    let mut o = [0.0; N];
    for i in 0..N {
        o[i] = k * (i as f64 + 1.0) * if i % 2 == 0 { 1.0 } else { -1.0 };
    }
    o
}
macro_rules! addsub_menu {
    ($menu:ident, $T:ty, $V:ty, $n:literal) => {{
        let b: [f64; $n] = fillv(3.0);
        let w: $V = b.into();
        $menu.op("+= value", move |v: &mut $T| *v += w, move |m| for i in 0..$n { m[i] += b[i] });
        $menu.op("-= value", move |v: &mut $T| *v -= w, move |m| for i in 0..$n { m[i] -= b[i] });
        $menu.op("+= &value", move |v: &mut $T| *v += &w, move |m| for i in 0..$n { m[i] += b[i] });
        $menu.op("-= &value", move |v: &mut $T| *v -= &w, move |m| for i in 0..$n { m[i] -= b[i] });
    }};
}
macro_rules! fields_menu {
    ($menu:ident, $T:ty, $($f:ident = $i:literal)*) => {$(
        $menu.op(concat!(".", stringify!($f), " = 11"), |v: &mut $T| v.$f = 11.0, |m| m[$i] = 11.0);
        $menu.op(concat!(".", stringify!($f), " -= 3"), |v: &mut $T| v.$f -= 3.0, |m| m[$i] -= 3.0);
    )*};
}
macro_rules! vec_extra {
    ($menu:ident, $T:ty, $n:literal) => {{
        addsub_menu!($menu, $T, Vector<f64, $n>, $n);
        let b: [f64; $n] = fillv(2.0);
        let w = Vector::<f64, $n>::from(b);
        $menu.op("component_mul_assign", move |v: &mut $T| v.component_mul_assign(&w), move |m| for i in 0..$n { m[i] *= b[i] });
        $menu.op("neg_mut", |v: &mut $T| v.neg_mut(), |m| m.iter_mut().for_each(|x| *x = -*x));
        $menu.op("column view reversed", |v: &mut $T| { let a: &mut [[f64; $n]; 1] = v.as_mut(); a[0].reverse(); }, |m| m.reverse());
    }};
}
macro_rules! matrix_search {
    ($ctx:ident, $R:literal, $C:literal, $N:literal, $set:ident, $depth:expr, square = $sq:tt) => {{
        type T = Matrix<f64, $R, $C>;
        let mut menu: Menu<T> = Menu(vec![]);
        for k in 0..$N {
            let (c, r) = (k / $R, k % $R);
            menu.op(format!("[{c}][{r}] = 7"), move |v: &mut T| v[c][r] = 7.0, move |m| m[k] = 7.0);
            menu.op(format!("[({c},{r})] = 8"), move |v: &mut T| v[(c, r)] = 8.0, move |m| m[k] = 8.0);
            matrix_search!(@set menu, $set, k);
            menu.op(format!("columns view [{c}][{r}] = -9"), move |v: &mut T| { let a: &mut [[f64; $R]; $C] = v.as_mut(); a[c][r] = -9.0 }, move |m| m[k] = -9.0);
            menu.op(format!("flat view [{k}] = 10"), move |v: &mut T| { let a: &mut [f64; $N] = v.as_mut(); a[k] = 10.0 }, move |m| m[k] = 10.0);
            menu.op(format!("vectors view [{c}][{r}] = 12"), move |v: &mut T| { let a: &mut [Vector<f64, $R>; $C] = v.as_mut(); a[c][r] = 12.0 }, move |m| m[k] = 12.0);
            menu.op(format!("*as_mut_ptr()+{k} = -5"), move |v: &mut T| unsafe { *v.as_mut_ptr().add(k) = -5.0 }, move |m| m[k] = -5.0);
            for l in 0..$N {
                let (c2, r2) = (l / $R, l % $R);
                menu.op(format!("swap ({c},{r}) ({c2},{r2})"), move |v: &mut T| v.swap((c, r), (c2, r2)), move |m| m.swap(k, l));
            }
        }
        for c in 0..$C {
            menu.op(format!("[{c}] = column"), move |v: &mut T| v[c] = Vector::from(fillv::<$R>(13.0)), move |m| m[c * $R..(c + 1) * $R].copy_from_slice(&fillv::<$R>(13.0)));
            for c2 in 0..$C {
                menu.op(format!("swap_columns {c} {c2}"), move |v: &mut T| v.swap_columns(c, c2), move |m| for r in 0..$R { m.swap(c * $R + r, c2 * $R + r) });
            }
        }
        for r in 0..$R {
            for r2 in 0..$R {
                menu.op(format!("swap_rows {r} {r2}"), move |v: &mut T| v.swap_rows(r, r2), move |m| for c in 0..$C { m.swap(c * $R + r, c * $R + r2) });
            }
        }
        let b: [f64; $N] = fillv(2.0);
        let w: T = Matrix::from(b);
        menu.op("+= value", move |v: &mut T| *v += w, move |m| for i in 0..$N { m[i] += b[i] });
        menu.op("-= value", move |v: &mut T| *v -= w, move |m| for i in 0..$N { m[i] -= b[i] });
        menu.op("+= &value", move |v: &mut T| *v += &w, move |m| for i in 0..$N { m[i] += b[i] });
        menu.op("-= &value", move |v: &mut T| *v -= &w, move |m| for i in 0..$N { m[i] -= b[i] });
        menu.op("component_mul_assign", move |v: &mut T| v.component_mul_assign(&w), move |m| for i in 0..$N { m[i] *= b[i] });
        menu.op("neg_mut", |v: &mut T| v.neg_mut(), |m| m.iter_mut().for_each(|x| *x = -*x));
        menu.op("*= 3", |v: &mut T| *v *= 3.0, |m| m.iter_mut().for_each(|x| *x *= 3.0));
        menu.op("/= 2", |v: &mut T| *v /= 2.0, |m| m.iter_mut().for_each(|x| *x /= 2.0));
        menu.op("%= 4", |v: &mut T| *v %= 4.0, |m| m.iter_mut().for_each(|x| *x %= 4.0));
        matrix_search!(@square menu, $R, $sq);
        let inits: Vec<[f64; $N]> = vec![grid::distinct(0), grid::distinct(4), [0.0; $N], fillv(1.0)];
        $ctx.par(concat!("matrix-", $R, "x", $C), inits.len(), |i, s| search(s, |m| { let mut a = [0.0; $N]; a.copy_from_slice(m); T::from(a) }, &inits[i], &menu, $depth));
    }};
    (@set $menu:ident, none, $k:ident) => {};
    (@set $menu:ident, $set:ident, $k:ident) => {
        $menu.op(format!("named entry {} = 11", $k), move |v: &mut T| fields::$set(v, $k, 11.0), move |m| m[$k] = 11.0);
    };
    (@square $menu:ident, $N:literal, no) => {};
    (@square $menu:ident, $N:literal, yes) => {
        $menu.op("transpose_mut", |v: &mut T| v.transpose_mut(), |m| for c in 0..$N { for r in 0..c { m.swap(c * $N + r, r * $N + c) } });
    };
}

/// Shapes beyond 4x4.
fn wide<const R: usize, const C: usize>(ctx: &Ctx) {
    let n = R * C;
    let mut menu: Menu<Matrix<f64, R, C>> = Menu(vec![]);
    let make = |m: &[f64]| Matrix::<f64, R, C>::from(std::array::from_fn::<[f64; R], C, _>(|j| std::array::from_fn(|i| m[j * R + i])));
    for k in 0..n {
        let (c, r) = (k / R, k % R);
        menu.op(format!("[{c}][{r}] = 7"), move |v| v[c][r] = 7.0, move |m| m[k] = 7.0);
        menu.op(format!("[({c},{r})] = 8"), move |v| v[(c, r)] = 8.0, move |m| m[k] = 8.0);
        menu.op(format!("columns view [{c}][{r}] = -9"), move |v| { let a: &mut [[f64; R]; C] = v.as_mut(); a[c][r] = -9.0 }, move |m| m[k] = -9.0);
        menu.op(format!("vectors view [{c}][{r}] = 12"), move |v| { let a: &mut [Vector<f64, R>; C] = v.as_mut(); a[c][r] = 12.0 }, move |m| m[k] = 12.0);
        for l in 0..n {
            menu.op(format!("swap ({c},{r}) ({},{})", l / R, l % R), move |v| v.swap((c, r), (l / R, l % R)), move |m| m.swap(k, l));
        }
    }
    for c in 0..C {
        for c2 in 0..C {
            menu.op(format!("swap_columns {c} {c2}"), move |v| v.swap_columns(c, c2), move |m| for r in 0..R { m.swap(c * R + r, c2 * R + r) });
        }
    }
    for r in 0..R {
        for r2 in 0..R {
            menu.op(format!("swap_rows {r} {r2}"), move |v| v.swap_rows(r, r2), move |m| for c in 0..C { m.swap(c * R + r, c * R + r2) });
        }
    }
    let b: Vec<f64> = fillv::<64>(2.0)[..n].to_vec();
    let w = make(&b);
    for (name, sign) in [("+=", 1.0), ("-=", -1.0)] {
        for by_ref in [false, true] {
            let b = b.clone();
            menu.op(format!("{name} value, by reference: {by_ref}"), move |v| match (sign > 0.0, by_ref) {
                (true, false) => *v += w,
                (true, true) => *v += &w,
                (false, false) => *v -= w,
                (false, true) => *v -= &w,
            }, move |m| for i in 0..n { m[i] += sign * b[i] });
        }
    }
    menu.op("component_mul_assign", move |v| v.component_mul_assign(&w), move |m| for i in 0..n { m[i] *= b[i] });
    menu.op("neg_mut", |v| v.neg_mut(), |m| m.iter_mut().for_each(|x| *x = -*x));
    menu.op("*= 3", |v| *v *= 3.0, |m| m.iter_mut().for_each(|x| *x *= 3.0));
    menu.op("/= 2", |v| *v /= 2.0, |m| m.iter_mut().for_each(|x| *x /= 2.0));
    menu.op("%= 4", |v| *v %= 4.0, |m| m.iter_mut().for_each(|x| *x %= 4.0));
    let inits: Vec<Vec<f64>> = vec![grid::distinct::<64>(0)[..n].to_vec(), vec![0.0; n]];
    ctx.par(&format!("matrix-{R}x{C}"), inits.len(), |i, s| search(s, make, &inits[i], &menu, 2));
}
fn wide_transpose<const N: usize>(ctx: &Ctx) {
    ctx.section(&format!("transpose-in-place-{N}"), |s| for i in 0..40 {
        let f = grid::distinct::<64>(i);
        s.case(|| format!("fill {i}"), |c| {
            let a: [[f64; N]; N] = std::array::from_fn(|j| std::array::from_fn(|k| f[j * N + k]));
            let mut m = Matrix::<f64, N, N>::from(a);
            m.transpose_mut();
            c.eq("transpose_mut", m, model::tr(&a));
            m.transpose_mut();
            c.eq("transpose_mut twice", m, a);
        });
    });
}
fn main() {
    let ctx = Ctx::start("C11");
    let d = ctx.grade(3, 4, 5);
    ctx.bound(&format!("all histories of length up to {d} (vectors, points, quaternions, complex numbers; 2 for the larger ones in the quick tier) over the complete menu of in-place operations on every position, from four starting fills; matrices of all 16 shapes up to 4x4 (and 5x2, 2x5, 1x6) up to length {} ({} for up to 4 entries)", ctx.pick(2, 2), ctx.pick(3, 4)));
    ctx.assume("containers are plain data: two containers with equal components have equal futures (used to merge states)");
    macro_rules! vectors { ($($n:literal, [$($f:ident = $i:literal)*], $d:expr;)*) => {$(
        {
            type V = Vector<f64, $n>;
            let mut menu: Menu<V> = Menu(vec![]);
            linear_menu!(menu, V, $n, f64);
            vec_extra!(menu, V, $n);
            fields_menu!(menu, V, $($f = $i)*);
            let inits: Vec<[f64; $n]> = vec![grid::distinct(0), grid::distinct(4), [0.0; $n], fillv(1.0)];
            ctx.par(concat!("vector-", $n), inits.len(), |i, s| search(s, |m| { let mut a = [0.0; $n]; a.copy_from_slice(m); V::from(a) }, &inits[i], &menu, $d));
        }
    )*}; }
    vectors! {
        1, [x = 0], d + 1;
        2, [x = 0 y = 1], d;
        3, [x = 0 y = 1 z = 2], d;
        4, [x = 0 y = 1 z = 2 w = 3], ctx.pick(2, 3);
        5, [], ctx.pick(2, 3);
        7, [], 2;
    }
    macro_rules! points { ($($n:literal, [$($f:ident = $i:literal)*], $d:expr;)*) => {$(
        {
            type V = Point<f64, $n>;
            let mut menu: Menu<V> = Menu(vec![]);
            linear_menu!(menu, V, $n, f64);
            addsub_menu!(menu, V, Vector<f64, $n>, $n);
            fields_menu!(menu, V, $($f = $i)*);
            let inits: Vec<[f64; $n]> = vec![grid::distinct(0), grid::distinct(4), [0.0; $n], fillv(1.0)];
            ctx.par(concat!("point-", $n), inits.len(), |i, s| search(s, |m| { let mut a = [0.0; $n]; a.copy_from_slice(m); V::from(a) }, &inits[i], &menu, $d));
        }
    )*}; }
    points! {
        1, [x = 0], d + 1;
        2, [x = 0 y = 1], d;
        3, [x = 0 y = 1 z = 2], d;
        4, [], ctx.pick(2, 3);
        5, [], 2;
    }
    {
        type Q = Quaternion<f64>;
        let mut menu: Menu<Q> = Menu(vec![]);
        linear_menu!(menu, Q, 4, f64);
        addsub_menu!(menu, Q, Quaternion<f64>, 4);
        fields_menu!(menu, Q, s = 0);
        menu.op(".v = 1 2 3", |q: &mut Q| q.v = Vector3::new(1.0, 2.0, 3.0), |m| m[1..].copy_from_slice(&[1.0, 2.0, 3.0]));
        menu.op(".v.y = 14", |q: &mut Q| q.v.y = 14.0, |m| m[2] = 14.0);
        menu.op("tuple view", |q: &mut Q| { let t: &mut (f64, f64, f64, f64) = q.as_mut(); *t = (t.1, t.2, t.3, t.0); }, |m| m.rotate_left(1));
        menu.op("conjugate_mut", |q: &mut Q| q.conjugate_mut(), |m| m[1..].iter_mut().for_each(|x| *x = -*x));
        let inits: Vec<[f64; 4]> = vec![grid::distinct(0), grid::distinct(4), [0.0; 4], fillv(1.0)];
        ctx.par("quaternion", inits.len(), |i, s| search(s, |m| Q::new(m[0], m[1], m[2], m[3]), &inits[i], &menu, ctx.pick(2, 3)));
    }
    {
        type Z = Complex<f64>;
        let mut menu: Menu<Z> = Menu(vec![]);
        linear_menu!(menu, Z, 2, f64);
        addsub_menu!(menu, Z, Complex<f64>, 2);
        menu.op("tuple view", |z: &mut Z| { let t: &mut (f64, f64) = z.as_mut(); *t = (t.1, t.0); }, |m| m.reverse());
        menu.op("+= scalar", |z: &mut Z| *z += 5.0, |m| m[0] += 5.0);
        menu.op("-= scalar", |z: &mut Z| *z -= 3.0, |m| m[0] -= 3.0);
        menu.op("+= &scalar", |z: &mut Z| *z += &5.0, |m| m[0] += 5.0);
        menu.op("-= &scalar", |z: &mut Z| *z -= &3.0, |m| m[0] -= 3.0);
        menu.op("*= &scalar", |z: &mut Z| *z *= &2.0, |m| m.iter_mut().for_each(|x| *x *= 2.0));
        menu.op("/= &scalar", |z: &mut Z| *z /= &2.0, |m| m.iter_mut().for_each(|x| *x /= 2.0));
        menu.op("%= &scalar", |z: &mut Z| *z %= &4.0, |m| m.iter_mut().for_each(|x| *x %= 4.0));
        let w = Z::new(2.0, -1.0);
        let f = |m: &mut [f64]| { let p = model::cmul(&[m[0], m[1]], &[2.0, -1.0]); m.copy_from_slice(&p); };
        menu.op("*= complex", move |z: &mut Z| *z *= w, f);
        menu.op("*= &complex", move |z: &mut Z| *z *= &w, f);
        let u = Z::new(0.0, -2.0);
        let g = |m: &mut [f64]| { let p = model::cdiv(&[m[0], m[1]], &[0.0, -2.0]); m.copy_from_slice(&p); };
        menu.op("/= complex", move |z: &mut Z| *z /= u, g);
        menu.op("/= &complex", move |z: &mut Z| *z /= &u, g);
        let inits: Vec<[f64; 2]> = vec![grid::distinct(0), grid::distinct(4), [0.0; 2], fillv(1.0)];
        ctx.par("complex", inits.len(), |i, s| search(s, |m| Z::new(m[0], m[1]), &inits[i], &menu, d));
    }
    let small = ctx.pick(3, 4);
    matrix_search!(ctx, 1, 1, 1, set1x1, small, square = yes);
    matrix_search!(ctx, 1, 2, 2, set1x2, small, square = no);
    matrix_search!(ctx, 1, 3, 3, set1x3, small, square = no);
    matrix_search!(ctx, 1, 4, 4, set1x4, 2, square = no);
    matrix_search!(ctx, 2, 1, 2, none, small, square = no);
    matrix_search!(ctx, 2, 2, 4, set2x2, 3, square = yes);
    matrix_search!(ctx, 2, 3, 6, set2x3, 2, square = no);
    matrix_search!(ctx, 2, 4, 8, set2x4, 2, square = no);
    matrix_search!(ctx, 3, 1, 3, none, small, square = no);
    matrix_search!(ctx, 3, 2, 6, set3x2, ctx.pick(2, 3), square = no);
    matrix_search!(ctx, 3, 3, 9, set3x3, 2, square = yes);
    matrix_search!(ctx, 3, 4, 12, set3x4, 2, square = no);
    matrix_search!(ctx, 4, 1, 4, none, 2, square = no);
    matrix_search!(ctx, 4, 2, 8, set4x2, 2, square = no);
    matrix_search!(ctx, 4, 3, 12, set4x3, 2, square = no);
    matrix_search!(ctx, 4, 4, 16, set4x4, 2, square = yes);
    wide::<5, 2>(&ctx);
    wide::<2, 5>(&ctx);
    wide::<1, 6>(&ctx);
    if ctx.thorough() {
        wide::<5, 5>(&ctx);
        wide::<6, 3>(&ctx);
    }
    wide_transpose::<5>(&ctx);
    wide_transpose::<6>(&ctx);
    wide_transpose::<8>(&ctx);
    ctx.finish();
}
