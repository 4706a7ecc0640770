//! Menus of transformations of every kind with independently computed homogeneous matrices, and a
//! uniform view of the library's operations on them.
use crate::model;
use crate::model::M;

/// How a menu entry was made: its parts in plain numbers.
#[derive(Clone, Debug)]
pub struct Parts<const N: usize> {
    pub t: [f64; N],
    pub lin: Option<M<N, N>>,
    pub scale: f64,
}

fn unit<const N: usize>(v: [f64; N]) -> [f64; N] {
    model::unit(&v)
}
fn hom<const N: usize, const P: usize>(l: &M<N, N>, t: &[f64; N]) -> M<P, P> {
    let mut m = [[0.0; P]; P];
    for r in 0..N {
        for c in 0..N {
            m[r][c] = l[r][c];
        }
        m[r][N] = t[r];
    }
    m[N][N] = 1.0;
    m
}
fn refl<const N: usize>(n: &[f64; N], b: &[f64; N]) -> (M<N, N>, [f64; N]) {
    let mut l = model::ident::<N>();
    for r in 0..N {
        for c in 0..N {
            l[r][c] -= 2.0 * n[r] * n[c];
        }
    }
    (l, model::scale(n, 2.0 * model::dot(n, b)))
}
fn shear<const N: usize>(f: f64, o: &[f64; N], d: &[f64; N], n: &[f64; N]) -> (M<N, N>, [f64; N]) {
    let mut l = model::ident::<N>();
    for r in 0..N {
        for c in 0..N {
            l[r][c] += f * d[r] * n[c];
        }
    }
    (l, model::scale(d, -f * model::dot(n, o)))
}
/// The matrix of the same map when lengths are measured in units of `zin` before and `zin * out` after it.
pub fn rescale<const P: usize>(m: &M<P, P>, zin: f64, out: f64) -> M<P, P> {
    let mut r = *m;
    for row in r.iter_mut().take(P - 1) {
        for x in row.iter_mut().take(P - 1) {
            *x *= out;
        }
        row[P - 1] *= zin * out;
    }
    r
}
/// The point or vector (w = 1 or 0) moved by a homogeneous matrix whose last row is (0, .., 0, 1).
pub fn apply<const N: usize, const P: usize>(m: &M<P, P>, p: &[f64; N], w: f64) -> [f64; N] {
    let mut o = [0.0; N];
    for (r, x) in o.iter_mut().enumerate() {
        *x = m[r][N] * w;
        for c in 0..N {
            *x += m[r][c] * p[c];
        }
    }
    o
}

macro_rules! kinds {
    ($modname:ident, $t:ident, $n:literal, $p:literal, $Tr:ident, $Sc:ident, $Ro:ident, $Re:ident, $Sh:ident, $Is:ident, $Si:ident, $Tf:ident, $Pt:ident, $Ve:ident) => {
        pub mod $modname {
            use super::*;
            use cglinalg_core::*;
            #[allow(unused_imports)]
            use cglinalg_transform::*;
            pub type S = $t;
            pub const N: usize = $n;
            pub const P: usize = $p;
            pub type Pt = $Pt<$t>;
            pub type Ve = $Ve<$t>;
            pub type A = [f64; $n];
            pub type H = M<$p, $p>;

            #[derive(Clone, Debug, PartialEq)]
            pub enum K {
                T($Tr<$t>),
                S($Sc<$t>),
                R($Ro<$t>),
                F($Re<$t>),
                H($Sh<$t>),
                I($Is<$t>),
                M($Si<$t>),
                G($Tf<$t>),
            }
            pub struct Entry {
                pub name: String,
                pub k: K,
                /// the homogeneous matrix
                pub m: H,
                /// whether the documented vector action is the linear part of the point action
                pub vec: bool,
                pub parts: Parts<$n>,
            }
            pub fn pt(a: &A) -> Pt {
                Pt::from(a.map(|x| x as $t))
            }
            pub fn ve(a: &A) -> Ve {
                Ve::from(a.map(|x| x as $t))
            }
            pub fn uv(a: &A) -> Unit<Ve> {
                Unit::from_value(ve(a))
            }
            macro_rules! each {
                ($k:expr, $x:ident => $e:expr) => {
                    match $k {
                        K::T($x) => $e,
                        K::S($x) => $e,
                        K::R($x) => $e,
                        K::F($x) => $e,
                        K::H($x) => $e,
                        K::I($x) => $e,
                        K::M($x) => $e,
                        K::G($x) => $e,
                    }
                };
            }
            impl K {
                /// How a change of scale applied after the map enters: only some kinds can express one.
                pub fn out(&self, o: f64) -> f64 {
                    match self {
                        K::S(_) | K::M(_) | K::G(_) => o,
                        _ => 1.0,
                    }
                }
                /// The homogeneous matrix of the transformation in rescaled units (powers of two: exact).
                pub fn matrix_at(&self, zin: f64, out: f64) -> [[f64; $p]; $p] {
                    let m = self.matrix();
                    let mut r = [[0.0; $p]; $p];
                    for c in 0..$p {
                        for q in 0..$p {
                            let unit = if q == $n { 1.0 } else if c == $n { zin * out } else { out };
                            r[c][q] = m[c][q] as f64 / unit;
                        }
                    }
                    r
                }
                pub fn kind(&self) -> &'static str {
                    match self {
                        K::T(_) => "translation",
                        K::S(_) => "scale",
                        K::R(_) => "rotation",
                        K::F(_) => "reflection",
                        K::H(_) => "shear",
                        K::I(_) => "isometry",
                        K::M(_) => "similarity",
                        K::G(_) => "transform",
                    }
                }
                pub fn point(&self, p: &Pt) -> Pt {
                    each!(self, x => x.apply_point(p))
                }
                pub fn vector(&self, v: &Ve) -> Ve {
                    each!(self, x => x.apply_vector(v))
                }
                /// The operator forms on points.
                pub fn star_point(&self, p: &Pt) -> [Pt; 4] {
                    each!(self, x => [x.clone() * p.clone(), x.clone() * p, x * p.clone(), x * p])
                }
                pub fn star_vector(&self, p: &Ve) -> [Ve; 4] {
                    each!(self, x => [x.clone() * p.clone(), x.clone() * p, x * p.clone(), x * p])
                }
                pub fn matrix(&self) -> Matrix<$t, $p, $p> {
                    match self {
                        K::G(x) => x.to_matrix(),
                        K::T(x) => x.to_affine_matrix(),
                        K::S(x) => x.to_affine_matrix(),
                        K::R(x) => x.to_affine_matrix(),
                        K::F(x) => x.to_affine_matrix(),
                        K::H(x) => x.to_affine_matrix(),
                        K::I(x) => x.to_affine_matrix(),
                        K::M(x) => x.to_affine_matrix(),
                    }
                }
                pub fn matrix_from(&self) -> [Matrix<$t, $p, $p>; 2] {
                    each!(self, x => [x.clone().into(), x.into()])
                }
                pub fn to_transform(&self) -> $Tf<$t> {
                    match self {
                        K::G(x) => x.clone(),
                        K::T(x) => x.to_transform(),
                        K::S(x) => x.to_transform(),
                        K::R(x) => x.to_transform(),
                        K::F(x) => x.to_transform(),
                        K::H(x) => x.to_transform(),
                        K::I(x) => x.to_transform(),
                        K::M(x) => x.to_transform(),
                    }
                }
                pub fn inverse(&self) -> K {
                    match self {
                        K::T(x) => K::T(x.inverse()),
                        K::S(x) => K::S(x.inverse()),
                        K::R(x) => K::R(x.inverse()),
                        K::F(x) => K::F(x.inverse()),
                        K::H(x) => K::H(x.inverse()),
                        K::I(x) => K::I(x.inverse()),
                        K::M(x) => K::M(x.inverse()),
                        K::G(x) => K::G(x.inverse()),
                    }
                }
                /// The other ways of inverting, where the kind has them.
                pub fn inverse_forms(&self) -> Vec<(&'static str, K)> {
                    match self {
                        K::T(x) => {
                            let mut y = x.clone();
                            y.inverse_mut();
                            vec![("inverse_mut", K::T(y))]
                        }
                        K::R(x) => {
                            let mut y = x.clone();
                            y.inverse_mut();
                            vec![("inverse_mut", K::R(y))]
                        }
                        K::I(x) => {
                            let mut y = x.clone();
                            y.inverse_mut();
                            vec![("inverse_mut", K::I(y))]
                        }
                        K::M(x) => {
                            let mut y = x.clone();
                            y.inverse_mut();
                            vec![("inverse_mut", K::M(y))]
                        }
                        K::G(x) => vec![("try_inverse", K::G(x.try_inverse().expect("invertible")))],
                        _ => vec![],
                    }
                }
                pub fn inverse_point(&self, p: &Pt) -> Option<Pt> {
                    match self {
                        K::G(x) => x.inverse_apply_point(p),
                        K::T(x) => Some(x.inverse_apply_point(p)),
                        K::S(x) => Some(x.inverse_apply_point(p)),
                        K::R(x) => Some(x.inverse_apply_point(p)),
                        K::F(x) => Some(x.inverse_apply_point(p)),
                        K::H(x) => Some(x.inverse_apply_point(p)),
                        K::I(x) => Some(x.inverse_apply_point(p)),
                        K::M(x) => Some(x.inverse_apply_point(p)),
                    }
                }
                pub fn inverse_vector(&self, p: &Ve) -> Option<Ve> {
                    match self {
                        K::G(x) => x.inverse_apply_vector(p),
                        K::T(x) => Some(x.inverse_apply_vector(p)),
                        K::S(x) => Some(x.inverse_apply_vector(p)),
                        K::R(x) => Some(x.inverse_apply_vector(p)),
                        K::F(x) => Some(x.inverse_apply_vector(p)),
                        K::H(x) => Some(x.inverse_apply_vector(p)),
                        K::I(x) => Some(x.inverse_apply_vector(p)),
                        K::M(x) => Some(x.inverse_apply_vector(p)),
                    }
                }
                pub fn identity_like(&self) -> Option<K> {
                    Some(match self {
                        K::T(_) => K::T($Tr::identity()),
                        K::S(_) => K::S($Sc::identity()),
                        K::R(_) => K::R($Ro::identity()),
                        K::F(_) => return None,
                        K::H(_) => K::H($Sh::identity()),
                        K::I(_) => K::I($Is::identity()),
                        K::M(_) => K::M($Si::identity()),
                        K::G(_) => K::G($Tf::identity()),
                    })
                }
                /// The product in the four value and reference forms, where the library offers it.
                pub fn times(&self, o: &K) -> Option<[K; 4]> {
                    macro_rules! four {
                        ($a:ident, $b:ident, $w:path) => {
                            Some([$w($a.clone() * $b.clone()), $w($a.clone() * $b), $w($a * $b.clone()), $w($a * $b)])
                        };
                    }
                    match (self, o) {
                        (K::T(a), K::T(b)) => four!(a, b, K::T),
                        (K::S(a), K::S(b)) => four!(a, b, K::S),
                        (K::R(a), K::R(b)) => four!(a, b, K::R),
                        (K::H(a), K::H(b)) => four!(a, b, K::G),
                        (K::I(a), K::I(b)) => four!(a, b, K::I),
                        (K::M(a), K::M(b)) => four!(a, b, K::M),
                        (K::G(a), K::G(b)) => four!(a, b, K::G),
                        (K::T(a), K::R(b)) => four!(a, b, K::I),
                        (K::R(a), K::T(b)) => four!(a, b, K::I),
                        (K::I(a), K::T(b)) => four!(a, b, K::I),
                        (K::T(a), K::I(b)) => four!(a, b, K::I),
                        (K::I(a), K::R(b)) => four!(a, b, K::I),
                        (K::R(a), K::I(b)) => four!(a, b, K::I),
                        (K::M(a), K::I(b)) => four!(a, b, K::M),
                        _ => None,
                    }
                }
            }
            pub fn entry(name: String, k: K, l: &M<$n, $n>, t: &A, scale: f64) -> Entry {
                Entry { name, k, m: hom::<$n, $p>(l, t), vec: true, parts: Parts { t: *t, lin: Some(*l), scale } }
            }
            pub fn translation(t: &A) -> Entry {
                entry(format!("translation {t:?}"), K::T($Tr::from_vector(&ve(t))), &model::ident::<$n>(), t, 1.0)
            }
            pub fn scale(s: &A) -> Entry {
                let mut l = model::ident::<$n>();
                for i in 0..$n {
                    l[i][i] = s[i];
                }
                entry(format!("scale {s:?}"), K::S($Sc::from_nonuniform_scale(&ve(s))), &l, &[0.0; $n], 1.0)
            }
            pub fn reflection(n: &A, b: &A) -> Entry {
                let u = unit(*n);
                let (l, t) = refl(&u, b);
                entry(format!("reflection normal {n:?} through {b:?}"), K::F($Re::from_normal_bias(&uv(n), &pt(b))), &l, &t, 1.0)
            }
            pub fn shear_of(f: f64, o: &A, d: &A, n: &A) -> Entry {
                let (du, nu) = (unit(*d), unit(*n));
                let (l, t) = shear(f, o, &du, &nu);
                let k = K::H($Sh::from_affine_shear(f as $t, &pt(o), &uv(d), &uv(n)));
                let mut e = entry(format!("shear {f} about {o:?} along {d:?} normal {n:?}"), k, &l, &t, 1.0);
                e.vec = model::dot(&nu, o).abs() <= 1e-12 * model::norm(o);
                e
            }
            pub fn isometry(r: &Entry, t: &A) -> Entry {
                let K::R(ro) = &r.k else { unreachable!() };
                let k = K::I($Is::from_parts(&$Tr::from_vector(&ve(t)), ro));
                entry(format!("isometry {} then {t:?}", r.name), k, &r.parts.lin.unwrap(), t, 1.0)
            }
            pub fn similarity(r: &Entry, t: &A, s: f64) -> Entry {
                let K::R(ro) = &r.k else { unreachable!() };
                let k = K::M($Si::from_parts(&$Tr::from_vector(&ve(t)), ro, s as $t));
                let l = r.parts.lin.unwrap().map(|row| row.map(|x| x * s));
                let mut e = entry(format!("similarity scale {s}, {} then {t:?}", r.name), k, &l, t, s);
                e.parts.lin = r.parts.lin;
                e
            }
            pub fn general(name: String, m: &H) -> Entry {
                let mut x = Matrix::<$t, $p, $p>::zero();
                let mut l = model::ident::<$n>();
                let mut t = [0.0; $n];
                for r in 0..$p {
                    for c in 0..$p {
                        x[c][r] = m[r][c] as $t;
                    }
                }
                for r in 0..$n {
                    t[r] = m[r][$n];
                    for c in 0..$n {
                        l[r][c] = m[r][c];
                    }
                }
                entry(name, K::G($Tf::from_matrix_unchecked(x)), &l, &t, 1.0)
            }
            /// General transforms whose matrix is not affine: the last coordinate depends on the point.
            pub fn projective() -> Vec<(String, $Tf<$t>, H)> {
                let mut v = Vec::new();
                for (i, last) in [[0.25, 0.0, 0.5], [-0.125, 0.5, 0.25], [0.0, 0.0, -1.0], [0.5, 0.25, 0.0]].into_iter().enumerate() {
                    for w in [1.0, 4.0, -2.0, 0.0] {
                        let mut m = [[0.0; $p]; $p];
                        for r in 0..$n {
                            for c in 0..$p {
                                m[r][c] = [2.0, -1.0, 0.5, 3.0, 0.0, 1.0, -4.0][(r * 5 + c * 3 + i) % 7] + if r == c { 4.0 } else { 0.0 };
                            }
                            m[$n][r] = last[r];
                        }
                        m[$n][$n] = w;
                        if model::det(&m).abs() < 1.0 {
                            continue;
                        }
                        let mut x = Matrix::<$t, $p, $p>::zero();
                        for r in 0..$p {
                            for c in 0..$p {
                                x[c][r] = m[r][c] as $t;
                            }
                        }
                        v.push((format!("transform with rows {m:?}"), $Tf::from_matrix_unchecked(x), m));
                    }
                }
                v
            }
            /// Where a homogeneous matrix takes a point, unless it takes it too near infinity.
            pub fn project(m: &H, p: &A) -> Option<A> {
                let mut h = [0.0; $p];
                for r in 0..$p {
                    h[r] = m[r][$n];
                    for c in 0..$n {
                        h[r] += m[r][c] * p[c];
                    }
                }
                (h[$n].abs() >= 0.125).then(|| core::array::from_fn(|i| h[i] / h[$n]))
            }
            /// Points (or vectors) that determine an affine map many times over.
            pub fn probes(deep: bool) -> Vec<A> {
                let alpha: &[f64] = if deep { &[0.0, 1.0, -2.0, 3.5] } else { &[0.0, 1.0, -2.0] };
                (0..crate::grid::count(alpha.len(), $n)).map(|i| crate::grid::tuple(alpha, i)).collect()
            }
        }
    };
}
kinds!(d3, f64, 3, 4, Translation3, Scale3, Rotation3, Reflection3, Shear3, Isometry3, Similarity3, Transform3, Point3, Vector3);
kinds!(d2, f64, 2, 3, Translation2, Scale2, Rotation2, Reflection2, Shear2, Isometry2, Similarity2, Transform2, Point2, Vector2);
kinds!(s3, f32, 3, 4, Translation3, Scale3, Rotation3, Reflection3, Shear3, Isometry3, Similarity3, Transform3, Point3, Vector3);
kinds!(s2, f32, 2, 3, Translation2, Scale2, Rotation2, Reflection2, Shear2, Isometry2, Similarity2, Transform2, Point2, Vector2);

macro_rules! menu3 {
    ($m:ident) => {
        impl_menu!($m, 3, 4,
            ts: [[0.0, 0.0, 0.0], [1.0, -2.0, 3.0], [-4.0, 0.5, 0.0], [0.0, 0.0, 2.0], [7.0, 5.0, -6.0], [-0.25, 0.0, 1.5]],
            ss: [[2.0, 2.0, 2.0], [2.0, -3.0, 0.5], [1.0, 1.0, 1.0], [0.25, 4.0, -1.0], [-1.0, 5.0, 3.0], [1.0, 1.0 + 1.0 / 4096.0, 1.0 - 1.0 / 1048576.0], [-1.0, -1.0, -1.0]],
            ns: [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 3.0, 4.0], [1.0, 2.0, -2.0], [1.0, 1.0, 1.0], [1.0 / 4096.0, 1.0, 0.0], [0.0, -1.0 / 1048576.0, 1.0]],
            shears: [([1.0, 0.0, 0.0], [0.0, 1.0, 0.0]), ([0.0, 1.0, 0.0], [1.0, 0.0, 0.0]), ([1.0, 0.0, 0.0], [0.0, 0.0, 1.0]), ([0.0, 0.0, 1.0], [1.0, 0.0, 0.0]), ([0.0, 1.0, 0.0], [0.0, 0.0, 1.0]), ([0.0, 0.0, 1.0], [0.0, 1.0, 0.0]), ([2.0, 2.0, -1.0], [1.0, 0.0, 2.0]), ([3.0, 4.0, 0.0], [-4.0, 3.0, 12.0])]);
        impl $m::Entry {
            pub fn rotation(u: &[f64; 3], deg: f64) -> $m::Entry {
                use cglinalg_core::*;
                use cglinalg_transform::*;
                use cglinalg_trigonometry::*;
                let un = unit(*u);
                let axis = Unit::from_value(Vector3::<$m::S>::from(un.map(|x| x as $m::S)));
                let l = model::rot3(&un, deg.to_radians());
                $m::entry(format!("rotation {deg} degrees about {u:?}"), $m::K::R(Rotation3::from_axis_angle(&axis, Degrees(deg as $m::S))), &l, &[0.0; 3], 1.0)
            }
            /// Rotations that need no rounding, from quaternions, and rotations next to special ones.
            pub fn special_rotations() -> Vec<$m::Entry> {
                use cglinalg_core::*;
                use cglinalg_transform::*;
                let mut v = Vec::new();
                for q in [[0.5, 0.5, 0.5, 0.5], [0.5, -0.5, 0.5, -0.5], [-0.5, 0.5, 0.5, -0.5], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 0.0, -1.0]] {
                    let l = model::qmat(&q);
                    let k = $m::K::R(Rotation3::from_quaternion(&Quaternion::new(q[0] as $m::S, q[1] as $m::S, q[2] as $m::S, q[3] as $m::S)));
                    v.push($m::entry(format!("rotation of the quaternion {q:?}"), k, &l, &[0.0; 3], 1.0));
                }
                for d in [1e-6, -0.02, 179.99, 360.0 - 1.0 / 64.0] {
                    v.push($m::Entry::rotation(&[0.0, 1.0, 0.0], d));
                    v.push($m::Entry::rotation(&[2.0, -1.0, 2.0], d));
                }
                v.push($m::Entry::rotation(&[1.0, 1.0 / 4096.0, 0.0], 37.0));
                v.push($m::Entry::rotation(&[0.0, -1.0 / 1048576.0, 1.0], -130.0));
                v
            }
            pub fn rotations(deep: bool) -> Vec<$m::Entry> {
                let axes: &[[f64; 3]] = &[[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1.0, 2.0, 2.0], [1.0, -1.0, 0.5]];
                let degs: &[f64] = if deep { &[90.0, 37.0, 180.0, -130.0, 250.0, 1.0] } else { &[90.0, 37.0, -130.0, 180.0] };
                let mut v = vec![$m::Entry::rotation(&[0.0, 0.0, 1.0], 0.0)];
                for a in axes {
                    for d in degs {
                        v.push($m::Entry::rotation(a, *d));
                    }
                }
                v
            }
        }
    };
}
macro_rules! menu2 {
    ($m:ident) => {
        impl_menu!($m, 2, 3,
            ts: [[0.0, 0.0], [1.0, -2.0], [-4.0, 0.5], [0.0, 2.0], [7.0, 5.0], [-0.25, 0.0]],
            ss: [[2.0, 2.0], [2.0, -3.0], [1.0, 1.0], [0.25, 4.0], [-1.0, 5.0], [1.0 + 1.0 / 4096.0, 1.0 - 1.0 / 1048576.0], [-1.0, -1.0]],
            ns: [[1.0, 0.0], [0.0, -1.0], [3.0, 4.0], [1.0, -1.0], [-5.0, 12.0], [1.0 / 4096.0, 1.0], [-1.0, 1.0 / 1048576.0]],
            shears: [([1.0, 0.0], [0.0, 1.0]), ([0.0, 1.0], [1.0, 0.0]), ([3.0, 4.0], [-4.0, 3.0]), ([1.0, -1.0], [1.0, 1.0]), ([0.0, -1.0], [1.0, 0.0])]);
        impl $m::Entry {
            pub fn rotation(deg: f64) -> $m::Entry {
                use cglinalg_transform::*;
                use cglinalg_trigonometry::*;
                let l = model::rot2(deg.to_radians());
                $m::entry(format!("rotation {deg} degrees"), $m::K::R(Rotation2::from_angle(Degrees(deg as $m::S))), &l, &[0.0; 2], 1.0)
            }
            pub fn special_rotations() -> Vec<$m::Entry> {
                [1e-6, -0.02, 179.99, 89.999, 360.0 - 1.0 / 64.0].into_iter().map($m::Entry::rotation).collect()
            }
            pub fn rotations(deep: bool) -> Vec<$m::Entry> {
                let degs: &[f64] = if deep { &[0.0, 90.0, 37.0, 180.0, -130.0, 250.0, 1.0, 300.0, -60.0] } else { &[0.0, 90.0, 37.0, 180.0, -130.0] };
                degs.iter().map(|d| $m::Entry::rotation(*d)).collect()
            }
        }
    };
}
macro_rules! impl_menu {
    ($m:ident, $n:literal, $p:literal, ts: $ts:expr, ss: $ss:expr, ns: $ns:expr, shears: $sh:expr) => {
        impl $m::Entry {
            pub fn translations() -> Vec<[f64; $n]> {
                $ts.to_vec()
            }
            /// Entries of every kind.
            pub fn menu(deep: bool) -> Vec<$m::Entry> {
                $m::Entry::menu_at(deep, 1.0, 1.0)
            }
            /// The same entries in rescaled units: every length times `z`, and every map that can
            /// express it followed by a uniform scale by `o`.
            pub fn menu_at(deep: bool, z: f64, o: f64) -> Vec<$m::Entry> {
                let ts: Vec<[f64; $n]> = $ts.iter().map(|t| t.map(|x| x * z)).collect();
                let nt = if deep { ts.len() } else { 4 };
                let mut v: Vec<$m::Entry> = Vec::new();
                for t in &ts {
                    v.push($m::translation(t));
                }
                for s in $ss {
                    v.push($m::scale(&s.map(|x| x * o)));
                }
                let rots = $m::Entry::rotations(deep);
                for (i, r) in rots.iter().enumerate() {
                    for (j, t) in ts.iter().enumerate().take(nt) {
                        if deep || i < 3 || (i + j) % 3 == 0 {
                            v.push($m::isometry(r, t));
                            for (k, s) in [2.0, 0.5, 1.0, 3.0].into_iter().enumerate() {
                                if (deep && (i + j + k) % 2 == 0) || (i + j + k) % 4 == 1 {
                                    v.push($m::similarity(r, &t.map(|x| x * o), s * o));
                                }
                            }
                        }
                    }
                }
                v.extend(rots);
                for (i, r) in $m::Entry::special_rotations().into_iter().enumerate() {
                    for (j, t) in ts.iter().enumerate().take(2) {
                        v.push($m::isometry(&r, t));
                        for (k, s) in [-1.0, -2.5, 1.0 + 1.0 / 1073741824.0, 1.0 - 1.0 / 4096.0, 1.0].into_iter().enumerate() {
                            if deep || (i + j + k) % 3 == 0 {
                                v.push($m::similarity(&r, &t.map(|x| x * o), s * o));
                            }
                        }
                    }
                    v.push(r);
                }
                for (i, n) in $ns.iter().enumerate() {
                    for (j, b) in ts.iter().enumerate().take(nt) {
                        if deep || i == 0 || (i + j) % 2 == 0 {
                            v.push($m::reflection(n, b));
                        }
                    }
                }
                for (i, (d, n)) in $sh.iter().enumerate() {
                    for (j, o) in ts.iter().enumerate().take(nt) {
                        for (k, f) in [2.0, -0.5, 3.0, -5.0, 1.0 / 1048576.0, 1.0].into_iter().enumerate() {
                            if (k < 3 && (deep || j == 0 || (i + j + k) % 3 == 0)) || (k >= 3 && j < 2 && (i + j + k) % 3 == 0) {
                                v.push($m::shear_of(f, o, d, n));
                            }
                        }
                    }
                }
                // general transforms: products of the others
                let mut g = Vec::new();
                for i in (0..v.len()).step_by(if deep { 5 } else { 9 }) {
                    let j = (i * 7 + 3) % v.len();
                    g.push($m::general(format!("transform of ({}) after ({})", v[i].name, v[j].name), &{
                        let at = |e: &$m::Entry| rescale(&e.m, 1.0 / z, 1.0 / e.k.out(o));
                        rescale(&model::mul(&at(&v[i]), &at(&v[j])), z, o)
                    }));
                }
                v.extend(g);
                v
            }
        }
    };
}
menu3!(d3);
menu3!(s3);
menu2!(d2);
menu2!(s2);

/// Transformations whose parts have components of very different sizes, or beside one, with the size
/// of the terms that make up each entry of their matrix and of the matrix of their inverse.
macro_rules! mixed {
    ($m:ident, $n:literal, $p:literal, $base:expr, $normals:expr) => {
        impl $m::Entry {
            pub fn mixed() -> Vec<Mixed<$m::Entry, $p>> {
                let base: [f64; $n] = $base;
                // each component in turn takes each size
                let mut vs: Vec<[f64; $n]> = Vec::new();
                for k in 0..$n {
                    for x in SIZES {
                        let mut b = base;
                        b[k] = x;
                        vs.push(b);
                    }
                }
                vs.push([0.0; $n]);
                let mut out = Vec::new();
                let zero = [0.0; $n];
                let ones = [[1.0; $n]; $n];
                for t in &vs {
                    let e = $m::translation(t);
                    let inv = hom::<$n, $p>(&model::ident::<$n>(), &t.map(|x| -x));
                    let b = hom::<$n, $p>(&model::ident::<$n>(), &t.map(f64::abs));
                    out.push(Mixed { e, b, inv, binv: b });
                    if t.iter().all(|x| *x != 0.0) {
                        let e = $m::scale(t);
                        let mut l = [[0.0; $n]; $n];
                        let mut i = [[0.0; $n]; $n];
                        for k in 0..$n {
                            l[k][k] = t[k].abs();
                            i[k][k] = 1.0 / t[k];
                        }
                        let inv = hom::<$n, $p>(&i, &zero);
                        out.push(Mixed { e, b: hom::<$n, $p>(&l, &zero), inv, binv: hom::<$n, $p>(&i.map(|r| r.map(f64::abs)), &zero) });
                    }
                }
                let mut some = vs.clone();
                some.retain(|v| v.iter().all(|x| x.abs() < 1e8));
                for t in &some {
                    for n in $normals {
                        let e = $m::reflection(&n, t);
                        let u = unit(n).map(f64::abs);
                        let a = t.map(f64::abs);
                        let mut l = model::ident::<$n>();
                        for r in 0..$n {
                            for c in 0..$n {
                                l[r][c] += 2.0 * u[r] * u[c];
                            }
                        }
                        let b = hom::<$n, $p>(&l, &model::scale(&u, 2.0 * model::dot(&u, &a)));
                        let inv = e.m;
                        out.push(Mixed { e, b, inv, binv: b });
                    }
                    for q in 0..$n {
                        for r in 0..$n {
                            for f in [1.0 / 1024.0, -1.0 / 1073741824.0, 1.0 + 1.0 / 1048576.0, -3.0, 64.0] {
                                if q == r {
                                    continue;
                                }
                                let (mut d, mut n) = (zero, zero);
                                d[q] = 1.0;
                                n[r] = 1.0;
                                let e = $m::shear_of(f, t, &d, &n);
                                let inv = $m::shear_of(-f, t, &d, &n).m;
                                let (l, o) = shear(f64::abs(f), &t.map(f64::abs), &d, &n);
                                let b = hom::<$n, $p>(&l, &o.map(f64::abs));
                                out.push(Mixed { e, b, inv, binv: b });
                            }
                        }
                    }
                }
                for r in $m::Entry::rotations(false).into_iter().chain($m::Entry::special_rotations().into_iter().take(2)) {
                    let l = r.parts.lin.unwrap();
                    let lt: [[f64; $n]; $n] = core::array::from_fn(|i| core::array::from_fn(|j| l[j][i]));
                    for t in &vs {
                        for sc in [0.0, 1.0 / 1024.0, -8.0, 1.0 + 1.0 / 1048576.0, 1048576.0] {
                            let (e, f) = if sc == 0.0 { ($m::isometry(&r, t), 1.0) } else { ($m::similarity(&r, t, sc), sc) };
                            let li = lt.map(|r| r.map(|x| x / f));
                            let ti = model::scale(&model::mv(&li, t), -1.0);
                            let back = t.iter().map(|x| x.abs()).sum::<f64>() / f64::abs(f);
                            out.push(Mixed {
                                e,
                                b: hom::<$n, $p>(&ones.map(|r| r.map(|x| x * f64::abs(f))), &t.map(f64::abs)),
                                inv: hom::<$n, $p>(&li, &ti),
                                binv: hom::<$n, $p>(&ones.map(|r| r.map(|x| x / f64::abs(f))), &[back; $n]),
                            });
                        }
                    }
                }
                out
            }
            pub fn mixed_probes() -> Vec<[f64; $n]> {
                let mut vs: Vec<[f64; $n]> = Vec::new();
                for k in 0..$n {
                    for x in SIZES {
                        let mut b: [f64; $n] = $base.map(|x: f64| 4.0 - x);
                        b[k] = x;
                        vs.push(b);
                    }
                }
                vs
            }
        }
    };
}
/// Sizes that are exact in both precisions.
pub const SIZES: [f64; 11] = [1.0, -1.0, 1.0 / 1024.0, -1.0 / 262144.0, 1.0 / 16777216.0, -1.0 / 4294967296.0, 1024.0, 1073741824.0, 1.0 + 1.0 / 1048576.0, -1.0 + 1.0 / 65536.0, 0.5];
pub struct Mixed<E, const P: usize> {
    pub e: E,
    /// the size of the terms in each entry of the matrix
    pub b: M<P, P>,
    pub inv: M<P, P>,
    pub binv: M<P, P>,
}
mixed!(d3, 3, 4, [3.0, -2.0, 0.75], [[1.0, 0.0, 0.0], [0.0, 0.0, -1.0], [0.0, 3.0, 4.0], [2.0, -1.0, 2.0], [1.0, 1.0 / 4096.0, 0.0]]);
mixed!(s3, 3, 4, [3.0, -2.0, 0.75], [[1.0, 0.0, 0.0], [0.0, 0.0, -1.0], [0.0, 3.0, 4.0], [2.0, -1.0, 2.0], [1.0, 1.0 / 4096.0, 0.0]]);
mixed!(d2, 2, 3, [3.0, -2.0], [[1.0, 0.0], [0.0, -1.0], [-3.0, 4.0], [1.0, 1.0 / 4096.0]]);
mixed!(s2, 2, 3, [3.0, -2.0], [[1.0, 0.0], [0.0, -1.0], [-3.0, 4.0], [1.0, 1.0 / 4096.0]]);
