//! C10: every way of reading or building a container names the same components.
use cglinalg_core::*;
use cglmc::*;
#[path = "../gen/fields.rs"]
mod fields;
#[path = "../gen/swizzles.rs"]
mod swizzles;

trait Elem: Copy + Flat + PartialEq + std::fmt::Debug + cglinalg_numeric::SimdScalar + Send + Sync {
    fn of(x: f64) -> Self;
}
impl Elem for f64 {
    fn of(x: f64) -> f64 {
        x
    }
}
impl Elem for f32 {
    fn of(x: f64) -> f32 {
        x as f32
    }
}
impl Elem for i32 {
    fn of(x: f64) -> i32 {
        x as i32
    }
}
impl Elem for u8 {
    fn of(x: f64) -> u8 {
        x.abs() as u8
    }
}
impl Elem for i64 {
    fn of(x: f64) -> i64 {
        (x as i64) * 1_000_000_007
    }
}

/// Everything that a slice-like container of N components offers; `$v` an lvalue of the container.
macro_rules! linear {
    ($c:ident, $v:ident, $a:ident, $n:expr) => {{
        let a = &$a;
        $c.eq("as_slice", $v.as_slice(), &a[..]);
        $c.same("len", $v.len(), $n);
        $c.same("is_empty", $v.is_empty(), $n == 0);
        $c.same("shape", $v.shape(), ($n, 1));
        for i in 0..$n {
            $c.eq("index", $v[i], a[i]);
            // in-bounds: the container stores $n contiguous components
            $c.eq("as_ptr", unsafe { *$v.as_ptr().add(i) }, a[i]);
        }
        for i in 0..=$n {
            $c.eq("range to", &$v[..i], &a[..i]);
            $c.eq("range from", &$v[i..], &a[i..]);
            for j in i..=$n {
                $c.eq("range", &$v[i..j], &a[i..j]);
            }
        }
        $c.eq("range full", &$v[..], &a[..]);
        $c.panics("index past the end", || { let _ = std::hint::black_box($v[$n + std::hint::black_box(0)]); });
        $c.panics("range past the end", || { let _ = std::hint::black_box(&$v[0..$n + 1 + std::hint::black_box(0)]); });
        {
            let mut calls = 0usize;
            let w = $v.map(|x| { calls += 1; x });
            $c.eq("map identity", w, a);
            $c.same("map calls once per component", calls, $n);
        }
    }};
}
macro_rules! tuple_of { ($a:ident, 1) => { ($a[0],) }; ($a:ident, 2) => { ($a[0], $a[1]) }; ($a:ident, 3) => { ($a[0], $a[1], $a[2]) }; ($a:ident, 4) => { ($a[0], $a[1], $a[2], $a[3]) }; }
macro_rules! tuple_ty { ($S:ident, 1) => { ($S,) }; ($S:ident, 2) => { ($S, $S) }; ($S:ident, 3) => { ($S, $S, $S) }; ($S:ident, 4) => { ($S, $S, $S, $S) }; }
macro_rules! new_of { ($T:ident, $a:ident, 1) => { $T::new($a[0]) }; ($T:ident, $a:ident, 2) => { $T::new($a[0], $a[1]) }; ($T:ident, $a:ident, 3) => { $T::new($a[0], $a[1], $a[2]) }; ($T:ident, $a:ident, 4) => { $T::new($a[0], $a[1], $a[2], $a[3]) }; }
macro_rules! fields_of { ($v:ident, 1) => { [$v.x] }; ($v:ident, 2) => { [$v.x, $v.y] }; ($v:ident, 3) => { [$v.x, $v.y, $v.z] }; ($v:ident, 4) => { [$v.x, $v.y, $v.z, $v.w] }; }
macro_rules! named {
    ($c:ident, $S:ident, $T:ident, $gen:ident, $n:tt, $a:ident) => {{
        let a = $a;
        let v: $T<$S> = new_of!($T, a, $n);
        $c.eq("new", v, a);
        $c.eq("fields", fields_of!(v, $n), a);
        let t: tuple_ty!($S, $n) = tuple_of!(a, $n);
        $c.eq("from tuple", $T::<$S>::from(t), a);
        $c.eq("from &tuple", $T::<$S>::from(&t), a);
        let r: &$T<$S> = From::from(&t);
        $c.eq("&tuple as container", r, a);
        let r: &$T<$S> = From::from(&a);
        $c.eq("&array as container", r, a);
        $c.eq("from array", $T::<$S>::from(a), a);
        $c.eq("from &array", $T::<$S>::from(&a), a);
        let r: &tuple_ty!($S, $n) = v.as_ref();
        $c.eq("as_ref tuple", r, a);
        let r: &[$S; $n] = v.as_ref();
        $c.eq("as_ref array", r, a);
        {
            let mut w = v;
            let r: &mut tuple_ty!($S, $n) = w.as_mut();
            $c.eq("as_mut tuple", r, a);
            let r: &mut [$S; $n] = w.as_mut();
            $c.eq("as_mut array", r, a);
        }
        linear!($c, v, a, $n);
        swizzles::$gen($c, &v, &a);
        $c.eq("from_fill", $T::from_fill(a[$n - 1]), [a[$n - 1]; $n]);
        $c.eq("clone", v.clone(), a);
        $c.eq("unchanged", v, a);
    }};
}
fn cut<S: Copy, const N: usize>(a: &[S; 16]) -> [S; N] {
    let mut o = [a[0]; N];
    o.copy_from_slice(&a[..N]);
    o
}
fn reverse_order<S: Copy, const N: usize>(a: &[S; 16]) -> [S; N] {
    let mut o = [a[0]; N];
    for i in 0..N {
        o[i] = a[N - 1 - i];
    }
    o
}

fn containers<S: Elem>(c: &mut Case, a: &[S; 16]) {
    for r in 0..2 {
        macro_rules! get { ($n:literal) => { if r == 0 { cut::<S, $n>(a) } else { reverse_order::<S, $n>(a) } }; }
        let (b1, b2, b3, b4, b5) = (get!(1), get!(2), get!(3), get!(4), get!(5));
        named!(c, S, Vector1, vector1, 1, b1);
        named!(c, S, Vector2, vector2, 2, b2);
        named!(c, S, Vector3, vector3, 3, b3);
        named!(c, S, Vector4, vector4, 4, b4);
        named!(c, S, Point1, point1, 1, b1);
        named!(c, S, Point2, point2, 2, b2);
        named!(c, S, Point3, point3, 3, b3);
        {
            let v = Vector::<S, 5>::from(b5);
            linear!(c, v, b5, 5);
            let p = Point::<S, 4>::from(b4);
            linear!(c, p, b4, 4);
            let p = Point::<S, 5>::from(b5);
            linear!(c, p, b5, 5);
            let b9 = get!(9);
            let v = Vector::<S, 9>::from(b9);
            linear!(c, v, b9, 9);
            c.eq("vector9 from_fill", Vector::<S, 9>::from_fill(b9[8]), [b9[8]; 9]);
            let p = Point::<S, 7>::from(get!(7));
            let b7 = get!(7);
            linear!(c, p, b7, 7);
            c.eq("point7 from_fill", Point::<S, 7>::from_fill(b7[6]), [b7[6]; 7]);
            c.eq("point7 to and from vector", Point::from_vector(&p.to_vector()), b7);
        }
        // Single-component extras.
        c.eq("vector1 from scalar", Vector1::from(b1[0]), b1);
        c.eq("point1 from scalar", Point1::from(b1[0]), b1);
        c.eq("vector1 to scalar", Vector1::new(b1[0]).to_scalar(), b1[0]);
        let w = Vector1::new(b1[0]);
        let r: &S = w.as_ref();
        c.eq("vector1 as_ref scalar", *r, b1[0]);
        let w = Point1::new(b1[0]);
        let r: &S = w.as_ref();
        c.eq("point1 as_ref scalar", *r, b1[0]);
        c.eq("vector3 from vector4", Vector3::from(Vector4::from(b4)), [b4[0], b4[1], b4[2]]);
        c.eq("vector3 from &vector4", Vector3::from(&Vector4::from(b4)), [b4[0], b4[1], b4[2]]);
        // one-column views of a vector
        let v3 = Vector3::from(b3);
        let r: &[[S; 3]; 1] = v3.as_ref();
        c.eq("vector as one column", r, b3);
        // vector <-> point
        c.eq("point from_vector", Point3::from_vector(&v3), b3);
        c.eq("point to_vector", Point3::from(b3).to_vector(), b3);
        // extend, contract, homogeneous
        let last = b5[4];
        macro_rules! ext { ($n:literal, $m:literal, $b:ident) => {{
            let mut e = [last; $m];
            e[..$n].copy_from_slice(&$b);
            let v = Vector::<S, $n>::from($b);
            let p = Point::<S, $n>::from($b);
            let ve: Vector<S, $m> = v.extend(last);
            let pe: Point<S, $m> = p.extend(last);
            c.eq("vector extend", ve, e);
            c.eq("point extend", pe, e);
            let vc: Vector<S, $n> = ve.contract();
            let pc: Point<S, $n> = pe.contract();
            c.eq("vector contract", vc, $b);
            c.eq("point contract", pc, $b);
            let h: Vector<S, $m> = v.to_homogeneous();
            e[$n] = S::zero();
            c.eq("vector to_homogeneous", h, e);
            let back: Option<Vector<S, $n>> = h.from_homogeneous();
            c.eq("vector from_homogeneous", back, Some($b));
            e[$n] = S::one();
            let h: Vector<S, $m> = p.to_homogeneous();
            c.eq("point to_homogeneous", h, e);
            let back: Option<Point<S, $n>> = Point::from_homogeneous(&h);
            c.eq("point from_homogeneous", back, Some($b));
            let none: Option<Vector<S, $n>> = h.from_homogeneous();
            c.eq("a point's coordinates are not a vector", none, None::<[S; $n]>);
        }}; }
        ext!(1, 2, b1);
        ext!(2, 3, b2);
        ext!(3, 4, b3);
        // complex
        let z = Complex::new(b2[0], b2[1]);
        c.eq("complex parts", (z.real(), z.imaginary()), b2);
        let t = (b2[0], b2[1]);
        c.eq("complex from tuple", Complex::from(t), b2);
        c.eq("complex from &tuple", Complex::from(&t), b2);
        c.eq("complex from array", Complex::from(b2), b2);
        c.eq("complex from &array", Complex::from(&b2), b2);
        let r: &Complex<S> = From::from(&t);
        c.eq("&tuple as complex", r, b2);
        let r: &Complex<S> = From::from(&b2);
        c.eq("&array as complex", r, b2);
        let r: &(S, S) = z.as_ref();
        c.eq("complex as_ref tuple", r, b2);
        let r: &[S; 2] = z.as_ref();
        c.eq("complex as_ref array", r, b2);
        linear!(c, z, b2, 2);
        // quaternion: scalar part first
        let q = Quaternion::new(b4[0], b4[1], b4[2], b4[3]);
        c.eq("quaternion new", q, b4);
        c.eq("quaternion parts", (q.scalar(), q.vector()), b4);
        c.eq("quaternion fields", (q.s, q.v), b4);
        c.eq("quaternion from_parts", Quaternion::from_parts(b4[0], Vector3::new(b4[1], b4[2], b4[3])), b4);
        c.eq("quaternion from_vector", Quaternion::from_vector(Vector4::from(b4)), b4);
        let t = (b4[0], b4[1], b4[2], b4[3]);
        c.eq("quaternion from tuple", Quaternion::from(t), b4);
        c.eq("quaternion from &tuple", Quaternion::from(&t), b4);
        c.eq("quaternion from array", Quaternion::from(b4), b4);
        c.eq("quaternion from &array", Quaternion::from(&b4), b4);
        let r: &Quaternion<S> = From::from(&t);
        c.eq("&tuple as quaternion", r, b4);
        let r: &Quaternion<S> = From::from(&b4);
        c.eq("&array as quaternion", r, b4);
        let r: &(S, S, S, S) = q.as_ref();
        c.eq("quaternion as_ref tuple", r, b4);
        let r: &[S; 4] = q.as_ref();
        c.eq("quaternion as_ref array", r, b4);
        linear!(c, q, b4, 4);
        c.eq("quaternion from_fill", Quaternion::from_fill(b4[2]), [b4[2]; 4]);
        let zero = S::zero();
        c.eq("quaternion from_real", Quaternion::from_real(b4[3]), [b4[3], zero, zero, zero]);
        c.eq("quaternion from_pure", Quaternion::from_pure(Vector3::from(b3)), [zero, b3[0], b3[1], b3[2]]);
        c.eq("complex from_real", Complex::from_real(b4[3]), [b4[3], zero]);
        c.eq("complex from_imaginary", Complex::from_imaginary(b4[3]), [zero, b4[3]]);
        c.eq("complex from scalar", Complex::from(b4[3]), [b4[3], zero]);
        c.eq("complex from &scalar", Complex::from(&b4[3]), [b4[3], zero]);
        let e = Euler::new(b3[0], b3[1], b3[2]);
        c.eq("euler fields", (e.x, e.y, e.z), b3);
        let u = Unit::from_value_unchecked(Vector3::from(b3));
        c.eq("unit as_ref", u.as_ref(), b3);
        c.eq("unit deref", *u, b3);
        c.eq("unit fields through deref", [u[0], u[1], u[2]], b3);
        c.eq("unit into_inner", u.into_inner(), b3);
    }
}

macro_rules! matrix_shape {
    ($c:ident, $S:ident, $R:literal, $C:literal, $N:literal, $fields:ident, $new:ident, $a:ident) => {{
        let a: [$S; $N] = cut::<$S, $N>($a);
        // column-major reference
        let mut cm = [[a[0]; $R]; $C];
        for k in 0..$N { cm[k / $R][k % $R] = a[k]; }
        let m: Matrix<$S, $R, $C> = Matrix::from(cm);
        $c.eq("from columns array", m, a);
        matrix_shape!(@new $c, $fields, $new, m, a);
        $c.eq("from flat array", Matrix::<$S, $R, $C>::from(a), a);
        let r: &Matrix<$S, $R, $C> = From::from(&a);
        $c.eq("&flat array as matrix", r, a);
        let r: &Matrix<$S, $R, $C> = From::from(&cm);
        $c.eq("&columns array as matrix", r, a);
        let mut vs = [Vector::<$S, $R>::from_fill(a[0]); $C];
        for j in 0..$C { vs[j] = Vector::from(cm[j]); }
        let r: &Matrix<$S, $R, $C> = From::from(&vs);
        $c.eq("&column vectors as matrix", r, a);
        $c.eq("from_columns", Matrix::<$S, $R, $C>::from_columns(&vs), a);
        let mut rows = [Vector::<$S, $C>::from_fill(a[0]); $R];
        for i in 0..$R { for j in 0..$C { rows[i][j] = a[j * $R + i]; } }
        $c.eq("from_rows", Matrix::<$S, $R, $C>::from_rows(&rows), a);
        $c.eq("as_slice", m.as_slice(), &a[..]);
        let r: &[[$S; $R]; $C] = m.as_ref();
        $c.eq("as_ref columns", r, a);
        let r: &[Vector<$S, $R>; $C] = m.as_ref();
        $c.eq("as_ref vectors", r, a);
        let r: &[$S; $N] = m.as_ref();
        $c.eq("as_ref flat", r, a);
        { let mut w = m; let r: &mut [[$S; $R]; $C] = w.as_mut(); $c.eq("as_mut columns", r, a); }
        { let mut w = m; let r: &mut [Vector<$S, $R>; $C] = w.as_mut(); $c.eq("as_mut vectors", r, a); }
        { let mut w = m; let r: &mut [$S; $N] = w.as_mut(); $c.eq("as_mut flat", r, a); }
        $c.same("len", m.len(), $N);
        $c.same("is_empty", m.is_empty(), false);
        $c.same("shape", m.shape(), ($R, $C));
        $c.same("is_square", m.is_square(), $R == $C);
        for j in 0..$C {
            $c.eq("column", m.column(j), cm[j]);
            $c.eq("index column", m[j], cm[j]);
            for i in 0..$R {
                $c.eq("index column then row", m[j][i], a[j * $R + i]);
                $c.eq("index pair", m[(j, i)], a[j * $R + i]);
                // in-bounds: the matrix stores R*C contiguous components
                $c.eq("as_ptr", unsafe { *m.as_ptr().add(j * $R + i) }, a[j * $R + i]);
            }
        }
        for i in 0..$R {
            $c.eq("row", m.row(i), rows[i]);
        }
        $c.panics("column past the end", || { std::hint::black_box(m.column($C)); });
        $c.panics("row past the end", || { std::hint::black_box(m.row($R)); });
        $c.panics("index past the last column", || { std::hint::black_box(m[$C]); });
        $c.panics("pair past the last column", || { std::hint::black_box(m[($C, 0)]); });
        $c.panics("pair past the last row", || { std::hint::black_box(m[(0, $R)]); });
        $c.eq("from_fill", Matrix::<$S, $R, $C>::from_fill(a[$N - 1]), [a[$N - 1]; $N]);
        { let mut calls = 0usize; let w = m.map(|x| { calls += 1; x }); $c.eq("map identity", w, a); $c.same("map calls once per entry", calls, $N); }
    }};
    (@new $c:ident, none, none, $m:ident, $a:ident) => {};
    (@new $c:ident, $fields:ident, $new:ident, $m:ident, $a:ident) => {
        $c.eq("new", fields::$new(&$a), $a);
        $c.eq("entry names", fields::$fields(&$m), $a);
    };
}
/// Shapes without names of their own.
fn wide<S: Elem, const R: usize, const C: usize>(c: &mut Case, a: &[S; 16]) {
    let cm: [[S; R]; C] = std::array::from_fn(|j| std::array::from_fn(|i| a[j * R + i]));
    let m = Matrix::<S, R, C>::from(cm);
    let a = &a[..R * C];
    c.eq("wide from columns array", m, a);
    let vs: [Vector<S, R>; C] = cm.map(Vector::from);
    c.eq("wide from_columns", Matrix::from_columns(&vs), a);
    let rows: [Vector<S, C>; R] = std::array::from_fn(|i| Vector::from(std::array::from_fn::<S, C, _>(|j| cm[j][i])));
    c.eq("wide from_rows", Matrix::from_rows(&rows), a);
    let r: &[[S; R]; C] = m.as_ref();
    c.eq("wide as_ref columns", r, a);
    let r: &[Vector<S, R>; C] = m.as_ref();
    c.eq("wide as_ref vectors", r, a);
    c.same("wide len", m.len(), R * C);
    c.same("wide is_empty", m.is_empty(), false);
    for k in 0..R * C {
        // in-bounds: the matrix stores R*C contiguous components
        c.eq("wide as_ptr", unsafe { *m.as_ptr().add(k) }, a[k]);
    }
    { let mut w = m; let r: &mut [[S; R]; C] = w.as_mut(); c.eq("wide as_mut columns", r, a); }
    { let mut w = m; let r: &mut [Vector<S, R>; C] = w.as_mut(); c.eq("wide as_mut vectors", r, a); }
    let r: &Matrix<S, R, C> = From::from(&cm);
    c.eq("wide &columns array as matrix", r, a);
    let r: &Matrix<S, R, C> = From::from(&vs);
    c.eq("wide &column vectors as matrix", r, a);
    c.same("wide shape", m.shape(), (R, C));
    c.same("wide is_square", m.is_square(), R == C);
    for j in 0..C {
        c.eq("wide column", m.column(j), cm[j]);
        c.eq("wide index column", m[j], cm[j]);
        for i in 0..R {
            c.eq("wide index pair", (m[j][i], m[(j, i)]), [cm[j][i]; 2]);
        }
    }
    for i in 0..R {
        c.eq("wide row", m.row(i), rows[i]);
    }
    c.panics("wide column past the end", || { std::hint::black_box(m.column(C)); });
    c.panics("wide row past the end", || { std::hint::black_box(m.row(R)); });
    c.panics("wide pair past the end", || { std::hint::black_box(m[(0, R)]); });
    c.eq("wide from_fill", Matrix::<S, R, C>::from_fill(a[R * C - 1]), &vec![a[R * C - 1]; R * C][..]);
    let mut calls = 0usize;
    let w = m.map(|x| { calls += 1; x });
    c.eq("wide map identity", w, a);
    c.same("wide map calls once per entry", calls, R * C);
}
fn matrices<S: Elem>(c: &mut Case, a: &[S; 16]) {
    matrix_shape!(c, S, 1, 1, 1, fields1x1, new1x1, a);
    matrix_shape!(c, S, 1, 2, 2, fields1x2, new1x2, a);
    matrix_shape!(c, S, 1, 3, 3, fields1x3, new1x3, a);
    matrix_shape!(c, S, 1, 4, 4, fields1x4, new1x4, a);
    matrix_shape!(c, S, 2, 1, 2, none, none, a);
    matrix_shape!(c, S, 2, 2, 4, fields2x2, new2x2, a);
    matrix_shape!(c, S, 2, 3, 6, fields2x3, new2x3, a);
    matrix_shape!(c, S, 2, 4, 8, fields2x4, new2x4, a);
    matrix_shape!(c, S, 3, 1, 3, none, none, a);
    matrix_shape!(c, S, 3, 2, 6, fields3x2, new3x2, a);
    matrix_shape!(c, S, 3, 3, 9, fields3x3, new3x3, a);
    matrix_shape!(c, S, 3, 4, 12, fields3x4, new3x4, a);
    matrix_shape!(c, S, 4, 1, 4, none, none, a);
    matrix_shape!(c, S, 4, 2, 8, fields4x2, new4x2, a);
    matrix_shape!(c, S, 4, 3, 12, fields4x3, new4x3, a);
    matrix_shape!(c, S, 4, 4, 16, fields4x4, new4x4, a);
    wide::<S, 5, 2>(c, a);
    wide::<S, 2, 5>(c, a);
    wide::<S, 5, 3>(c, a);
    wide::<S, 3, 5>(c, a);
    wide::<S, 1, 7>(c, a);
    c.eq("1x1 to scalar", Matrix1x1::new(a[0]).to_scalar(), a[0]);
    // Embedding of a smaller square matrix: the upper left block, identity elsewhere.
    macro_rules! embed { ($m:literal, $n:literal, $k:literal) => {{
        let s: Matrix<S, $m, $m> = Matrix::from(cut::<S, $k>(a));
        let mut w = [[S::zero(); $n]; $n];
        for j in 0..$n { w[j][j] = S::one(); }
        for j in 0..$m { for i in 0..$m { w[j][i] = a[j * $m + i]; } }
        let e: Matrix<S, $n, $n> = Matrix::from(s);
        c.eq("embed", e, w);
        let e: Matrix<S, $n, $n> = Matrix::from(&s);
        c.eq("embed by reference", e, w);
    }}; }
    embed!(1, 2, 1);
    embed!(1, 3, 1);
    embed!(1, 4, 1);
    embed!(2, 3, 4);
    embed!(2, 4, 4);
    embed!(3, 4, 9);
}

fn fills(n: usize) -> Vec<[f64; 16]> {
    let mut v: Vec<[f64; 16]> = (0..n as i64).map(grid::distinct::<16>).collect();
    // one-hot and all-but-one patterns on every position
    for k in 0..16 {
        let mut a = [0.0; 16];
        a[k] = 5.0;
        v.push(a);
        let mut a = [3.0; 16];
        a[k] = 0.0;
        v.push(a);
    }
    v
}

fn main() {
    let ctx = Ctx::start("C10");
    ctx.bound("every swizzle name of vectors 1..4 and points 1..3, every index, range, array, tuple, slice and pointer access, constructor and conversion of vectors 1..5, points 1..4, complex numbers, quaternions and matrices of all 16 shapes up to 4x4");
    ctx.bound("components: fills with pairwise distinct values, one-hot and all-but-one patterns on every position; f64, f32, i32, i64, u8; homogeneous coordinates over a complete grid of divisors");
    let fs = fills(ctx.pick(24, 124));
    macro_rules! ty { ($($S:ident)*) => {$(
        ctx.par(concat!("containers-", stringify!($S)), fs.len(), |i, s| {
            let a = fs[i].map(<$S as Elem>::of);
            s.case(|| format!("components {a:?}"), |c| containers::<$S>(c, &a));
        });
        ctx.par(concat!("matrices-", stringify!($S)), fs.len(), |i, s| {
            let a = fs[i].map(<$S as Elem>::of);
            s.case(|| format!("components {a:?}"), |c| matrices::<$S>(c, &a));
        });
    )*}; }
    ty!(f64 f32 i32 i64 u8);
    ctx.section("quaternion-from-vector4", |s| {
        for f in &fs {
            let b = [f[0], f[1], f[2], f[3]];
            s.case(|| format!("components {b:?}"), |c| {
                c.eq("quaternion from vector4", Quaternion::from(Vector4::from(b)), b);
                c.eq("quaternion from &vector4", Quaternion::from(&Vector4::from(b)), b);
                let g = b.map(|x| x as f32);
                c.eq("f32 quaternion from vector4", Quaternion::from(Vector4::from(g)), g);
                c.eq("f32 quaternion from &vector4", Quaternion::from(&Vector4::from(g)), g);
            });
        }
    });
    // Homogeneous division over all tuples and divisors.
    let alpha: &[f64] = ctx.pick(&[0.0, 1.0, -1.0, 2.0, -3.0, 0.5], &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 1024.0, -0.125, 7.0]);
    let ws: &[f64] = &[0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.25, 3.0, 1e-300, -1e-300, 1e300, f64::MIN_POSITIVE, 1e-17, 1e-8];
    ctx.par("homogeneous-points", grid::count(alpha.len(), 3), |i, s| {
        let a: [f64; 3] = grid::tuple(alpha, i);
        for &w in ws {
            s.case(|| format!("({a:?}, {w:?})"), |c| {
                macro_rules! n { ($n:literal, $m:literal) => {{
                    let mut h = [w; $m];
                    h[..$n].copy_from_slice(&a[..$n]);
                    let mut b = [0.0; $n];
                    b.copy_from_slice(&a[..$n]);
                    let got: Option<Point<f64, $n>> = Point::from_homogeneous(&Vector::from(h));
                    match got {
                        None => { c.truth("only a zero divisor is refused", w == 0.0); }
                        Some(p) => {
                            c.truth("a zero divisor is refused", w != 0.0);
                            for k in 0..$n {
                                let e = b[k] / w;
                                // a reciprocal product may overflow or flush only where the quotient is extreme
                                c.truth_with("quotient", p[k] == e || (p[k] - e).abs() <= 1e-14 * e.abs() || w.abs() < 1e-290, || format!("component {k}: {} for {e}", p[k]));
                            }
                        }
                    }
                    let got: Option<Vector<f64, $n>> = Vector::<f64, $m>::from(h).from_homogeneous();
                    c.eq("vector from homogeneous", got, if w == 0.0 { Some(b) } else { None });
                }}; }
                n!(1, 2);
                n!(2, 3);
                n!(3, 4);
            });
        }
    });
    ctx.finish();
}
