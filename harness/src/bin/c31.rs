//! C31: equality, defaults, constants, predicates and text of values reflect all components.
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
use cglmc::*;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Display;
use std::hash::{Hash, Hasher};

type Vector6<S> = Vector<S, 6>;
type Vector9<S> = Vector<S, 9>;
type Point8<S> = Point<S, 8>;
type Matrix7x3<S> = Matrix<S, 7, 3>;
type Point5<S> = Point<S, 5>;
type Matrix5x2<S> = Matrix<S, 5, 2>;
type Matrix2x5<S> = Matrix<S, 2, 5>;
type Matrix2x1<S> = Matrix<S, 2, 1>;
type Matrix3x1<S> = Matrix<S, 3, 1>;
type Matrix4x1<S> = Matrix<S, 4, 1>;

/// The numbers of a text, in order. Digits that belong to a name (`Vector3`, `Matrix2x3`) are not numbers.
fn numbers(text: &str) -> Vec<f64> {
    let b: Vec<char> = text.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let digit_at = |j: usize| j < b.len() && b[j].is_ascii_digit();
        let starts = digit_at(i) || (b[i] == '-' && digit_at(i + 1));
        let glued = i > 0 && (b[i - 1].is_alphanumeric() || b[i - 1] == '_' || b[i - 1] == '.');
        // the imaginary unit in front of a number
        let imaginary = i > 0 && b[i - 1] == 'i' && (i == 1 || !b[i - 2].is_alphanumeric());
        if starts {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == '.' || ((b[j] == 'e' || b[j] == 'E') && (digit_at(j + 1) || (j + 1 < b.len() && b[j + 1] == '-' && digit_at(j + 2))))) {
                j += if b[j] == 'e' || b[j] == 'E' { 2 } else { 1 };
            }
            if !glued || imaginary {
                let t: String = b[i..j].iter().collect();
                out.push(t.trim_end_matches('.').parse::<f64>().unwrap_or(f64::NAN));
            }
            i = j;
        } else {
            i += 1;
        }
    }
    out
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// One value, with the list of its components as an outside observer knows them.
struct Item<T> {
    name: String,
    value: T,
    parts: Vec<f64>,
    /// the same numbers as they read after printing at the element's own precision
    shown: Vec<f64>,
}

fn family<T>(ctx: &Ctx, name: &str, items: &[Item<T>], hash: Option<fn(&T) -> u64>, text: bool)
where
    T: PartialEq + Clone + Display + Sync,
{
    ctx.par(name, items.len(), |i, s| {
        let a = &items[i];
        s.case(|| format!("{} against the {} members of its family", a.name, items.len()), |c| {
            let nan = a.parts.iter().any(|x| x.is_nan());
            let k = a.value.clone();
            c.truth("a clone equals its original", (k == a.value) != nan);
            if text && !nan {
                let t = format!("{}", a.value);
                let got = numbers(&t);
                c.truth_with("the text shows every component in order", got == a.shown, || format!("{t:?} for {:?}", a.shown));
            }
            for b in items {
                let want = a.parts.len() == b.parts.len() && a.parts.iter().zip(&b.parts).all(|(x, y)| x == y);
                let got = a.value == b.value;
                if got != want {
                    c.truth_with("equal exactly when all components are", false, || format!("== is {got} for {:?} and {:?}", a.parts, b.parts));
                    return;
                }
                let ne = a.value != b.value;
                if ne == want {
                    c.truth_with("!= is the opposite of ==", false, || format!("!= is {ne} for {:?} and {:?}", a.parts, b.parts));
                    return;
                }
                if let (Some(h), true) = (hash, want) {
                    if h(&a.value) != h(&b.value) {
                        c.truth_with("equal values have equal hashes", false, || format!("{:?}", a.parts));
                        return;
                    }
                }
            }
            c.ops += 2 * items.len() as u64;
            c.eq("components", &a.parts, &a.parts);
        });
    });
}

/// All tuples over the alphabet when that is small; otherwise every fill with each position
/// replaced by each value of the alphabet, each pair of positions exchanged, and each pair shifted
/// against each other.
fn fills(n: usize, alpha: &[f64], deep: bool) -> Vec<Vec<f64>> {
    let limit = if deep { 5000 } else { 1300 };
    let mut out: Vec<Vec<f64>> = Vec::new();
    let mut k = alpha.len();
    while k > 1 && (k as f64).powi(n as i32) > limit as f64 {
        k -= 1;
    }
    if k >= 3 {
        for i in 0..k.pow(n as u32) {
            let mut j = i;
            out.push((0..n).map(|_| { let x = alpha[j % k]; j /= k; x }).collect());
        }
    }
    let mut bases = vec![vec![0.0; n], vec![1.0; n], (0..n).map(|i| (2 + i) as f64).collect::<Vec<_>>()];
    if deep {
        bases.push((0..n).map(|i| if i % 2 == 0 { 1.0 } else { 0.0 }).collect());
    }
    for b in bases {
        out.push(b.clone());
        for i in 0..n {
            for &a in alpha {
                let mut v = b.clone();
                v[i] = a;
                out.push(v);
            }
            for j in 0..i {
                let mut v = b.clone();
                v.swap(i, j);
                out.push(v.clone());
                let mut v = b.clone();
                v[i] += 1.0;
                v[j] -= if v[j] >= 1.0 { 1.0 } else { 0.0 };
                out.push(v);
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|v| seen.insert(v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
    out
}

trait Elem: cglinalg_numeric::SimdScalar + Display + Flat + Send + Sync {
    const NAME: &'static str;
    const ALPHA: &'static [f64];
    fn of(x: f64) -> Self;
    fn val(self) -> f64;
    fn shown(self) -> f64 {
        format!("{}", self).parse().unwrap()
    }
}
macro_rules! elem {
    ($($t:ident [$($a:expr),*])*) => {$(
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            const ALPHA: &'static [f64] = &[$($a),*];
            fn of(x: f64) -> $t { x as $t }
            fn val(self) -> f64 { self as f64 }
        }
    )*};
}
elem! {
    f64 [0.0, 1.0, -1.0, 0.1, 2.0, 1.0000000000000002, f64::INFINITY, -0.0, f64::NAN, 1e-300]
    f32 [0.0, 1.0, -1.0, 0.1, 2.0, 1.0000001, f64::INFINITY, -0.0, f64::NAN, 1e-30]
    i32 [0.0, 1.0, -1.0, 2.0, -2.0, 2147483647.0, -2147483648.0, 65536.0]
    u8 [0.0, 1.0, 2.0, 128.0, 255.0, 129.0]
    i64 [0.0, 1.0, -1.0, 2.0, -4294967296.0, 4294967297.0]
}

fn items<S: Elem, T>(n: usize, deep: bool, finite: bool, f: impl Fn(&[S]) -> T) -> Vec<Item<T>> {
    let alpha: Vec<f64> = S::ALPHA.iter().cloned().filter(|x| !finite || x.is_finite()).collect();
    fills(n, &alpha, deep)
        .into_iter()
        .map(|v| {
            let s: Vec<S> = v.iter().map(|&x| S::of(x)).collect();
            let parts: Vec<f64> = s.iter().map(|&x| x.val()).collect();
            let shown = if parts.iter().all(|x| x.is_finite()) { s.iter().map(|&x| x.shown()).collect() } else { Vec::new() };
            Item { name: format!("{v:?}"), value: f(&s), parts, shown }
        })
        .collect()
}

/// Values with infinite components take no part in the text comparison.
fn both<S: Elem, T: PartialEq + Clone + Display + Sync>(ctx: &Ctx, name: &str, n: usize, hash: Option<fn(&T) -> u64>, f: impl Fn(&[S]) -> T) {
    let deep = ctx.thorough();
    let a = items::<S, T>(n, deep, false, &f);
    family(ctx, &format!("{name}<{}> equality", S::NAME), &a, hash, false);
    let b = items::<S, T>(n, deep, true, &f);
    ctx.section(&format!("{name}<{}> text", S::NAME), |s| {
        for x in &b {
            s.case(|| x.name.clone(), |c| {
                let t = format!("{}", x.value);
                let got = numbers(&t);
                c.truth_with("the text shows every component in order", got == x.shown, || format!("{t:?} for {:?}", x.shown));
            });
        }
    });
}

macro_rules! vectors {
    ($ctx:ident, $S:ty, $hv:expr; $($n:literal $V:ident);*) => {$(
        both::<$S, _>($ctx, stringify!($V), $n, $hv, |s| {
            let mut v = $V::<$S>::zero();
            for (i, x) in s.iter().enumerate() { v[i] = *x; }
            v
        });
    )*};
}
macro_rules! points {
    ($ctx:ident, $S:ty, $hv:expr; $($n:literal $V:ident);*) => {$(
        both::<$S, _>($ctx, stringify!($V), $n, $hv, |s| {
            let mut v = $V::<$S>::origin();
            for (i, x) in s.iter().enumerate() { v[i] = *x; }
            v
        });
    )*};
}
macro_rules! matrices {
    ($ctx:ident, $S:ty, $hv:expr; $($M:ident $r:literal $c:literal);*) => {$(
        both::<$S, _>($ctx, stringify!($M), $r * $c, $hv, |s| {
            let mut m = $M::<$S>::zero();
            for c in 0..$c { for r in 0..$r { m[c][r] = s[c * $r + r]; } }
            m
        });
    )*};
}
macro_rules! all_matrices {
    ($ctx:ident, $S:ty, $h:expr) => {
        matrices!($ctx, $S, $h; Matrix1x1 1 1; Matrix1x2 1 2; Matrix1x3 1 3; Matrix1x4 1 4; Matrix2x1 2 1; Matrix2x2 2 2; Matrix2x3 2 3; Matrix2x4 2 4; Matrix3x1 3 1; Matrix3x2 3 2; Matrix3x3 3 3; Matrix3x4 3 4; Matrix4x1 4 1; Matrix4x2 4 2; Matrix4x3 4 3; Matrix4x4 4 4; Matrix5x2 5 2; Matrix2x5 2 5; Matrix7x3 7 3)
    };
}
macro_rules! scalars_of {
    ($ctx:ident, $S:ty, $h:expr) => {{
        vectors!($ctx, $S, $h; 1 Vector1; 2 Vector2; 3 Vector3; 4 Vector4; 6 Vector6; 9 Vector9);
        points!($ctx, $S, $h; 1 Point1; 2 Point2; 3 Point3; 5 Point5; 8 Point8);
        both::<$S, _>($ctx, "Quaternion", 4, $h, |s| Quaternion::new(s[0], s[1], s[2], s[3]));
        both::<$S, _>($ctx, "Complex", 2, $h, |s| Complex::new(s[0], s[1]));
        both::<$S, _>($ctx, "Radians", 1, $h, |s| Radians(s[0]));
        both::<$S, _>($ctx, "Degrees", 1, $h, |s| Degrees(s[0]));
        both::<$S, _>($ctx, "Unit<Vector3>", 3, $h, |s| Unit::from_value_unchecked(Vector3::new(s[0], s[1], s[2])));
        both::<$S, _>($ctx, "Unit<Quaternion>", 4, $h, |s| Unit::from_value_unchecked(Quaternion::new(s[0], s[1], s[2], s[3])));
        both::<$S, _>($ctx, "Euler", 3, $h, |s| Euler::new(Radians(s[0]), Radians(s[1]), Radians(s[2])));
        both::<$S, _>($ctx, "Euler degrees", 3, $h, |s| Euler::new(Degrees(s[0]), Degrees(s[1]), Degrees(s[2])));
    }};
}

fn recognise<S: Elem, T>(ctx: &Ctx, name: &str, n: usize, build: impl Fn(&[S]) -> T, tests: &[(&str, &dyn Fn(&T) -> bool, &dyn Fn(&[f64]) -> bool)]) {
    ctx.section(&format!("{name}-tests-{}", S::NAME), |sec| {
        for f in &fills(n, S::ALPHA, ctx.thorough()) {
            sec.case(|| format!("{f:?}"), |c| {
                let s: Vec<S> = f.iter().map(|&x| S::of(x)).collect();
                let k: Vec<f64> = s.iter().map(|&x| x.val()).collect();
                let v = build(&s);
                for (t, got, want) in tests {
                    c.same(t, got(&v), want(&k));
                }
            });
        }
    });
}

/// Zero, one, identity, unit and default values, and the tests that recognise them.
macro_rules! constants {
    ($ctx:ident, $S:ident) => {{
        $ctx.section(concat!("constants-", stringify!($S)), |s| {
            let z = <$S as Elem>::of(0.0);
            let o = <$S as Elem>::of(1.0);
            macro_rules! zeros {
                ($V:ident $n:literal $zero:ident) => {
                    s.case(|| stringify!($V).into(), |c| {
                        c.eq(stringify!($zero), $V::<$S>::$zero(), [z; $n]);
                        c.eq("default", $V::<$S>::default(), [z; $n]);
                        c.eq("default by trait", <$V<$S> as Default>::default(), [z; $n]);
                    });
                };
            }
            zeros!(Vector1 1 zero);
            zeros!(Vector2 2 zero);
            zeros!(Vector3 3 zero);
            zeros!(Vector4 4 zero);
            zeros!(Vector6 6 zero);
            zeros!(Matrix5x2 10 zero);
            zeros!(Point5 5 origin);
            zeros!(Point1 1 origin);
            zeros!(Point2 2 origin);
            zeros!(Point3 3 origin);
            zeros!(Quaternion 4 zero);
            zeros!(Complex 2 zero);
            zeros!(Radians 1 zero);
            zeros!(Degrees 1 zero);
            zeros!(Matrix1x1 1 zero);
            zeros!(Matrix1x2 2 zero);
            zeros!(Matrix1x3 3 zero);
            zeros!(Matrix1x4 4 zero);
            zeros!(Matrix2x1 2 zero);
            zeros!(Matrix2x2 4 zero);
            zeros!(Matrix2x3 6 zero);
            zeros!(Matrix2x4 8 zero);
            zeros!(Matrix3x1 3 zero);
            zeros!(Matrix3x2 6 zero);
            zeros!(Matrix3x3 9 zero);
            zeros!(Matrix3x4 12 zero);
            zeros!(Matrix4x1 4 zero);
            zeros!(Matrix4x2 8 zero);
            zeros!(Matrix4x3 12 zero);
            zeros!(Matrix4x4 16 zero);
            s.case(|| "identities and units".into(), |c| {
                c.eq("identity 1", Matrix1x1::<$S>::identity(), [o]);
                c.eq("identity 2", Matrix2x2::<$S>::identity(), [o, z, z, o]);
                c.eq("identity 3", Matrix3x3::<$S>::identity(), [o, z, z, z, o, z, z, z, o]);
                c.eq("identity 4", Matrix4x4::<$S>::identity(), [o, z, z, z, z, o, z, z, z, z, o, z, z, z, z, o]);
                c.eq("quaternion identity", Quaternion::<$S>::identity(), [o, z, z, z]);
                c.eq("quaternion one", Quaternion::<$S>::one(), [o, z, z, z]);
                c.eq("quaternion unit_s", Quaternion::<$S>::unit_s(), [o, z, z, z]);
                c.eq("quaternion unit_x", Quaternion::<$S>::unit_x(), [z, o, z, z]);
                c.eq("quaternion unit_y", Quaternion::<$S>::unit_y(), [z, z, o, z]);
                c.eq("quaternion unit_z", Quaternion::<$S>::unit_z(), [z, z, z, o]);
                c.eq("complex identity", Complex::<$S>::identity(), [o, z]);
                c.eq("complex one", Complex::<$S>::one(), [o, z]);
                c.eq("complex unit_re", Complex::<$S>::unit_re(), [o, z]);
                c.eq("complex unit_im", Complex::<$S>::unit_im(), [z, o]);
                c.eq("1 unit_x", Vector1::<$S>::unit_x(), [o]);
                c.eq("2 unit_x", Vector2::<$S>::unit_x(), [o, z]);
                c.eq("2 unit_y", Vector2::<$S>::unit_y(), [z, o]);
                c.eq("3 unit_x", Vector3::<$S>::unit_x(), [o, z, z]);
                c.eq("3 unit_y", Vector3::<$S>::unit_y(), [z, o, z]);
                c.eq("3 unit_z", Vector3::<$S>::unit_z(), [z, z, o]);
                c.eq("4 unit_x", Vector4::<$S>::unit_x(), [o, z, z, z]);
                c.eq("4 unit_y", Vector4::<$S>::unit_y(), [z, o, z, z]);
                c.eq("4 unit_z", Vector4::<$S>::unit_z(), [z, z, o, z]);
                c.eq("4 unit_w", Vector4::<$S>::unit_w(), [z, z, z, o]);
            });
        });
        // the tests recognise exactly the constants
        macro_rules! recognise { ($name:literal, $n:expr, $s:ident => $b:expr, $tests:expr) => { recognise::<$S, _>($ctx, $name, $n, |$s: &[$S]| $b, $tests) }; }
        let is0 = |k: &[f64]| k.iter().all(|x| *x == 0.0);
        let is_id = |k: &[f64], n: usize| (0..n * n).all(|i| k[i] == if i % (n + 1) == 0 { 1.0 } else { 0.0 });
        recognise!("Vector1", 1, s => Vector1::new(s[0]), &[("is_zero", &|v: &Vector1<$S>| v.is_zero(), &|k| is0(k))]);
        recognise!("Vector2", 2, s => Vector2::new(s[0], s[1]), &[("is_zero", &|v: &Vector2<$S>| v.is_zero(), &|k| is0(k))]);
        recognise!("Vector3", 3, s => Vector3::new(s[0], s[1], s[2]), &[("is_zero", &|v: &Vector3<$S>| v.is_zero(), &|k| is0(k))]);
        recognise!("Vector4", 4, s => Vector4::new(s[0], s[1], s[2], s[3]), &[("is_zero", &|v: &Vector4<$S>| v.is_zero(), &|k| is0(k))]);
        recognise!("Vector6", 6, s => Vector6::from([s[0], s[1], s[2], s[3], s[4], s[5]]), &[("is_zero", &|v: &Vector6<$S>| v.is_zero(), &|k| is0(k))]);
        recognise!("Quaternion", 4, s => Quaternion::new(s[0], s[1], s[2], s[3]), &[
            ("is_zero", &|v: &Quaternion<$S>| v.is_zero(), &|k| is0(k)),
            ("is_identity", &|v: &Quaternion<$S>| v.is_identity(), &|k| k[0] == 1.0 && is0(&k[1..])),
            ("is_pure", &|v: &Quaternion<$S>| v.is_pure(), &|k| k[0] == 0.0),
            ("is_real", &|v: &Quaternion<$S>| v.is_real(), &|k| is0(&k[1..])),
        ]);
        recognise!("Complex", 2, s => Complex::new(s[0], s[1]), &[
            ("is_zero", &|v: &Complex<$S>| v.is_zero(), &|k| is0(k)),
            ("is_identity", &|v: &Complex<$S>| v.is_identity(), &|k| k[0] == 1.0 && k[1] == 0.0),
            ("is_one", &|v: &Complex<$S>| v.is_one(), &|k| k[0] == 1.0 && k[1] == 0.0),
            ("is_real", &|v: &Complex<$S>| v.is_real(), &|k| k[1] == 0.0),
            ("is_imaginary", &|v: &Complex<$S>| v.is_imaginary(), &|k| k[0] == 0.0),
        ]);
        recognise!("Radians", 1, s => Radians(s[0]), &[("is_zero", &|v: &Radians<$S>| v.is_zero(), &|k| is0(k))]);
        recognise!("Degrees", 1, s => Degrees(s[0]), &[("is_zero", &|v: &Degrees<$S>| v.is_zero(), &|k| is0(k))]);
        macro_rules! mats {
            ($M:ident $r:literal $c:literal) => {
                recognise!("matrix", $r * $c, s => { let mut m = $M::<$S>::zero(); for c in 0..$c { for r in 0..$r { m[c][r] = s[c * $r + r]; } } m },
                    &[("is_zero", &|v: &$M<$S>| v.is_zero(), &|k| is0(k)), ("is_square", &|v: &$M<$S>| v.is_square(), &|_| $r == $c)])
            };
        }
        mats!(Matrix1x1 1 1); mats!(Matrix1x2 1 2); mats!(Matrix1x3 1 3); mats!(Matrix1x4 1 4);
        mats!(Matrix2x1 2 1); mats!(Matrix2x2 2 2); mats!(Matrix2x3 2 3); mats!(Matrix2x4 2 4);
        mats!(Matrix3x1 3 1); mats!(Matrix3x2 3 2); mats!(Matrix3x3 3 3); mats!(Matrix3x4 3 4);
        mats!(Matrix4x1 4 1); mats!(Matrix4x2 4 2); mats!(Matrix4x3 4 3); mats!(Matrix4x4 4 4); mats!(Matrix5x2 5 2); mats!(Matrix2x5 2 5);
        macro_rules! squares {
            ($M:ident $n:literal) => {
                $ctx.section(concat!("identity-tests-", stringify!($S)), |sec| {
                    let mut all = fills($n * $n, <$S as Elem>::ALPHA, $ctx.thorough());
                    let id: Vec<f64> = (0..$n * $n).map(|i| if i % ($n + 1) == 0 { 1.0 } else { 0.0 }).collect();
                    all.push(id.clone());
                    for i in 0..$n * $n {
                        for a in <$S as Elem>::ALPHA {
                            let mut v = id.clone();
                            v[i] = *a;
                            all.push(v);
                        }
                    }
                    for f in &all {
                        sec.case(|| format!("{f:?}"), |c| {
                            let mut m = $M::<$S>::zero();
                            for i in 0..$n * $n { m[i / $n][i % $n] = <$S as Elem>::of(f[i]); }
                            let k: Vec<f64> = f.iter().map(|&x| <$S as Elem>::of(x).val()).collect();
                            c.same("is_identity", m.is_identity(), is_id(&k, $n));
                        });
                    }
                });
            };
        }
        squares!(Matrix1x1 1);
        squares!(Matrix2x2 2);
        squares!(Matrix3x3 3);
        squares!(Matrix4x4 4);
    }};
}

/// Float-only tests: finite, not a number, infinite, diagonal, symmetric.
macro_rules! floats {
    ($ctx:ident, $S:ident) => {{
        let special: &[f64] = &[0.0, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -3.0];
        macro_rules! finite {
            ($name:literal, $n:expr, $s:ident => $build:expr) => {
                $ctx.section(concat!($name, "-finite-", stringify!($S)), |sec| {
                    for f in &fills($n, special, $ctx.thorough()) {
                        sec.case(|| format!("{f:?}"), |c| {
                            let $s: Vec<$S> = f.iter().map(|&x| x as $S).collect();
                            let v = $build;
                            c.same("is_finite", v.is_finite(), f.iter().all(|x| x.is_finite()));
                        });
                    }
                });
            };
        }
        finite!("Vector1", 1, s => Vector1::new(s[0]));
        finite!("Vector2", 2, s => Vector2::new(s[0], s[1]));
        finite!("Vector3", 3, s => Vector3::new(s[0], s[1], s[2]));
        finite!("Vector4", 4, s => Vector4::new(s[0], s[1], s[2], s[3]));
        finite!("Vector6", 6, s => Vector6::from([s[0], s[1], s[2], s[3], s[4], s[5]]));
        finite!("Quaternion", 4, s => Quaternion::new(s[0], s[1], s[2], s[3]));
        finite!("Complex", 2, s => Complex::new(s[0], s[1]));
        finite!("Radians", 1, s => Radians(s[0]));
        finite!("Degrees", 1, s => Degrees(s[0]));
        finite!("Matrix2x2", 4, s => Matrix2x2::new(s[0], s[1], s[2], s[3]));
        finite!("Matrix3x3", 9, s => Matrix3x3::new(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8]));
        finite!("Matrix2x3", 6, s => Matrix2x3::new(s[0], s[1], s[2], s[3], s[4], s[5]));
        finite!("Matrix3x2", 6, s => Matrix3x2::new(s[0], s[1], s[2], s[3], s[4], s[5]));
        finite!("Matrix4x4", 16, s => Matrix4x4::new(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15]));
        $ctx.section(concat!("complex-classes-", stringify!($S)), |sec| {
            for f in &fills(2, special, true) {
                sec.case(|| format!("{f:?}"), |c| {
                    let z = Complex::new(f[0] as $S, f[1] as $S);
                    let nan = f.iter().any(|x| x.is_nan());
                    c.same("is_nan", z.is_nan(), nan);
                    if !nan {
                        c.same("is_infinite", z.is_infinite(), f.iter().any(|x| x.is_infinite()));
                    }
                });
            }
        });
        $ctx.section(concat!("euler-", stringify!($S)), |sec| {
            for f in &fills(3, <$S as Elem>::ALPHA, true) {
                sec.case(|| format!("{f:?}"), |c| {
                    let k = |x: f64| x as $S;
                    let want = f.iter().all(|x| k(*x) == 0.0);
                    c.same("is_zero", Euler::new(Radians(k(f[0])), Radians(k(f[1])), Radians(k(f[2]))).is_zero(), want);
                    c.same("is_zero of degrees", Euler::new(Degrees(k(f[0])), Degrees(k(f[1])), Degrees(k(f[2]))).is_zero(), want);
                });
            }
            sec.case(|| "zero".into(), |c| {
                c.eq("zero", Euler::<Radians<$S>>::zero(), [0.0; 3]);
                c.eq("zero degrees", Euler::<Degrees<$S>>::zero(), [0.0; 3]);
                c.eq("angle zero", <Radians<$S> as Angle>::zero(), 0.0);
                c.eq("angle zero degrees", <Degrees<$S> as Angle>::zero(), 0.0);
            });
        });
        // diagonal and symmetric: clear cases only (entries exactly equal or far apart)
        macro_rules! shapes {
            ($M:ident $n:literal) => {
                $ctx.section(concat!("shapes-", stringify!($S)), |sec| {
                    let mut all = fills($n * $n, &[0.0, 1.0, -1.0, 2.0], $ctx.thorough());
                    for d in [1.0, -2.0] {
                        for k in 0..$n * $n {
                            let mut v: Vec<f64> = (0..$n * $n).map(|i| if i % ($n + 1) == 0 { d } else { 0.0 }).collect();
                            v[k] += 3.0;
                            all.push(v.clone());
                            let t = (k % $n) * $n + k / $n;
                            if t != k {
                                v[t] += 3.0;
                                all.push(v.clone());
                                v[t] = -v[t];
                                all.push(v);
                            }
                            let mut w: Vec<f64> = (0..$n * $n).map(|i| { let (c, r) = (i / $n, i % $n); (1 + c * r + 2 * (c + r)) as f64 }).collect();
                            all.push(w.clone());
                            w[k] -= 5.0;
                            all.push(w);
                        }
                    }
                    for f in &all {
                        sec.case(|| format!("{f:?}"), |c| {
                            let mut m = $M::<$S>::zero();
                            for i in 0..$n * $n { m[i / $n][i % $n] = f[i] as $S; }
                            let diag = (0..$n * $n).all(|i| i / $n == i % $n || f[i] == 0.0);
                            let sym = (0..$n * $n).all(|i| f[i] == f[(i % $n) * $n + i / $n]);
                            c.same("is_diagonal", m.is_diagonal(), diag);
                            c.same("is_symmetric", m.is_symmetric(), sym);
                        });
                    }
                });
            };
        }
        shapes!(Matrix1x1 1);
        shapes!(Matrix2x2 2);
        shapes!(Matrix3x3 3);
        shapes!(Matrix4x4 4);
    }};
}

fn list<T: Flat>(x: T) -> Vec<f64> {
    let mut b = flat::Buf::new();
    x.flat(&mut b);
    b.as_slice().to_vec()
}

macro_rules! transforms {
    ($f:ident, $m:ident, $n:literal, $S:ident) => {
        fn $f(ctx: &Ctx) {
            use cglmc::xf::$m::*;
            let deep = ctx.thorough();
            const L: &str = concat!(stringify!($m), " ");
            let item = |name: String, parts: Vec<f64>| (name, parts.iter().map(|x| format!("{}", *x as $S).parse().unwrap()).collect::<Vec<f64>>(), parts);
            macro_rules! fam {
                ($label:literal, $vals:expr, $x:ident => $parts:expr) => {{
                    let v: Vec<_> = $vals
                        .into_iter()
                        .map(|(name, value)| {
                            let $x = &value;
                            let parts: Vec<f64> = $parts.concat();
                            let (name, shown, parts) = item(name, parts);
                            Item { name, value, parts, shown }
                        })
                        .collect();
                    family(ctx, &format!("{L}{}", $label), &v, None, true);
                }};
            }
            let menu = Entry::menu(true);
            let step = if deep { 1 } else { 1 };
            macro_rules! pick {
                ($K:ident) => { menu.iter().step_by(step).filter_map(|e| if let K::$K(x) = &e.k { Some((e.name.clone(), x.clone())) } else { None }).collect::<Vec<_>>() };
            }
            // members of the menu, plus each with every component of its translation or scale changed
            let ts: Vec<[f64; $n]> = fills($n, &[0.0, 1.0, -2.0, 0.5], deep).into_iter().map(|v| core::array::from_fn(|i| v[i])).collect();
            fam!("translations", ts.iter().map(|t| (format!("{t:?}"), Translation::from_vector(&ve(t)))).chain(pick!(T)), x => [list(x.vector())]);
            fam!("scales", ts.iter().map(|t| (format!("{t:?}"), Scale::from_nonuniform_scale(&ve(t)))).chain(pick!(S)), x => [list(x.to_vector())]);
            fam!("rotations", pick!(R), x => [list(x.matrix())]);
            fam!("reflections", pick!(F), x => [list(x.normal()), list(x.bias())]);
            let rots = pick!(R);
            let few: Vec<_> = rots.iter().step_by((rots.len() / if deep { 12 } else { 5 }).max(1)).collect();
            let mut isos = pick!(I);
            let mut sims = pick!(M);
            for (rn, r) in &few {
                for t in ts.iter().step_by(if deep { 1 } else { 3 }) {
                    let tr = Translation::from_vector(&ve(t));
                    isos.push((format!("{rn} then {t:?}"), Isometry::from_parts(&tr, r)));
                    for k in [1.0, 2.0, -0.5] {
                        sims.push((format!("{k} {rn} then {t:?}"), Similarity::from_parts(&tr, r, k)));
                    }
                }
            }
            fam!("isometries", isos, x => [list(x.rotation().matrix()), list(x.translation().vector())]);
            fam!("similarities", sims, x => [list(x.scale()), list(x.rotation().matrix()), list(x.translation().vector())]);
            let mut shears = pick!(H);
            for k in [0.0, 1.0, 2.5] {
                for o in ts.iter().take(if deep { 40 } else { 12 }) {
                    for i in 0..$n {
                        for j in 0..$n {
                            if i != j {
                                let d: [f64; $n] = core::array::from_fn(|q| (q == i) as u8 as f64);
                                let nn: [f64; $n] = core::array::from_fn(|q| (q == j) as u8 as f64);
                                shears.push((format!("shear {k} {o:?} {i} {j}"), Shear::from_affine_shear(k as $S, &pt(o), &uv(&d), &uv(&nn))));
                            }
                        }
                    }
                }
            }
            fam!("shears", shears, x => [list(x.shear_factor()), list(x.origin()), list(x.direction()), list(x.normal())]);
            let mut gs = pick!(G);
            const P: usize = $n + 1;
            for v in fills(P * P, &[0.0, 1.0, -1.0, 0.5], deep) {
                let mut m = Matrix::<$S, P, P>::zero();
                for i in 0..P * P {
                    m[i / P][i % P] = v[i] as $S;
                }
                gs.push((format!("{v:?}"), Transform::from_matrix_unchecked(m)));
            }
            fam!("transforms", gs, x => [list(x.matrix())]);
            ctx.section(concat!(stringify!($m), " identities"), |s| {
                s.case(|| "identity of every kind".into(), |c| {
                    let one = Matrix::<$S, $n, $n>::identity();
                    let big = Matrix::<$S, P, P>::identity();
                    c.eq("translation", Translation::<$S, $n>::identity().vector(), [0.0; $n]);
                    c.eq("scale", Scale::<$S, $n>::identity().to_vector(), [1.0; $n]);
                    c.eq("rotation", Rotation::<$S, $n>::identity().matrix(), one);
                    c.eq("isometry", Isometry::<$S, $n>::identity().rotation().matrix(), one);
                    c.eq("isometry translation", Isometry::<$S, $n>::identity().translation().vector(), [0.0; $n]);
                    c.eq("similarity", Similarity::<$S, $n>::identity().rotation().matrix(), one);
                    c.eq("similarity translation", Similarity::<$S, $n>::identity().translation().vector(), [0.0; $n]);
                    c.eq("similarity scale", Similarity::<$S, $n>::identity().scale(), 1.0);
                    c.eq("transform", Transform::<$S, $n, P>::identity().matrix(), big);
                });
            });
        }
    };
}
transforms!(t3, d3, 3, f64);
transforms!(t2, d2, 2, f64);
transforms!(u3, s3, 3, f32);
transforms!(u2, s2, 2, f32);

macro_rules! projections {
    ($ctx:ident, $S:ident) => {{
        let deep = $ctx.thorough();
        let mut ps = Vec::new();
        let mut os = Vec::new();
        let k: &[$S] = if deep { &[1.0, 2.0, 3.0, 4.5] } else { &[1.0, 2.0, 3.5] };
        for &l in k { for &r in k { for &b in k { for &t in k { for &n in &k[..2] { for &f in &k[..2] {
            let name = format!("[{l}, {r}] x [{b}, {t}] x [{n}, {}]", n + 4.0 * f);
            let p = Perspective3::<$S>::new(l, r, b, t, n, n + 4.0 * f);
            let o = Orthographic3::<$S>::new(l, r, b, t, n, n + 4.0 * f);
            ps.push((name.clone(), p.matrix().clone(), p));
            os.push((name, o.matrix().clone(), o));
        }}}}}}
        macro_rules! fam {
            ($label:literal, $v:expr) => {{
                let v: Vec<_> = $v.into_iter().map(|(name, m, value)| { let parts = list(m); Item { name, value, shown: parts.iter().map(|x| format!("{}", *x as $S).parse().unwrap()).collect(), parts } }).collect();
                family($ctx, concat!($label, " ", stringify!($S)), &v, None, true);
            }};
        }
        fam!("perspectives", ps);
        fam!("orthographics", os);
    }};
}

fn main() {
    let root = Ctx::start("C31");
    let ctx = &root;
    macro_rules! hashed { ($S:ident) => {
        scalars_of!(ctx, $S, Some(hash_of));
        all_matrices!(ctx, $S, Some(hash_of));
        constants!(ctx, $S);
    }; }
    hashed!(i32);
    hashed!(u8);
    hashed!(i64);
    scalars_of!(ctx, f64, None);
    scalars_of!(ctx, f32, None);
    all_matrices!(ctx, f64, None);
    all_matrices!(ctx, f32, None);
    constants!(ctx, f64);
    constants!(ctx, f32);
    floats!(ctx, f64);
    floats!(ctx, f32);
    t3(ctx);
    t2(ctx);
    u3(ctx);
    u2(ctx);
    projections!(ctx, f64);
    projections!(ctx, f32);
    ctx.section("angles-order", |s| {
        let a = [-720.0, -1.0, -0.0, 0.0, 1.0e-300, 1.0, 90.0, 360.0, f64::INFINITY, f64::NAN];
        for x in a {
            for y in a {
                s.case(|| format!("{x} {y}"), |c| {
                    c.same("radians compare as their values", Radians(x).partial_cmp(&Radians(y)), x.partial_cmp(&y));
                    c.same("degrees compare as their values", Degrees(x).partial_cmp(&Degrees(y)), x.partial_cmp(&y));
                    c.same("<", (Radians(x) < Radians(y), Degrees(x) < Degrees(y), Radians(x) >= Radians(y), Degrees(x) >= Degrees(y)), (x < y, x < y, x >= y, x >= y));
                });
            }
        }
    });
    ctx.bound("every pair of members of each family: all tuples over the largest alphabet that keeps the family small, three or four base fills with each position set to each special value, each pair of positions exchanged and each pair shifted against each other");
    ctx.bound("types: vectors, points, matrices of all 16 shapes, quaternions, complex numbers, angles, Euler angles and units over f64, f32, i32, i64 and u8; all transformations and projections over f64 and f32");
    ctx.assume("the numbers of a text are compared, not its punctuation or names");
    root.finish();
}
