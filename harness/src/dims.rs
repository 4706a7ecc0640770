//! Reads the library's dimension relations out of the compiled trait system: for every pair (or
//! 4-tuple) of dimensions the type checker itself is asked whether the relation holds, and with
//! which result.
use cglinalg_core::*;

/// The number a dimension type stands for.
pub trait Num {
    const N: usize;
}
impl<const D: usize> Num for Const<D> {
    const N: usize = D;
}

macro_rules! assoc_probe {
    ($P:ident, $Fallback:ident, $Tr:ident, $Assoc:ident) => {
        pub struct $P<const A: usize, const B: usize>;
        pub trait $Fallback {
            const V: Option<usize> = None;
        }
        impl<const A: usize, const B: usize> $Fallback for $P<A, B> {}
        impl<const A: usize, const B: usize> $P<A, B>
        where
            ShapeConstraint: $Tr<Const<A>, Const<B>>,
            <ShapeConstraint as $Tr<Const<A>, Const<B>>>::$Assoc: Num,
        {
            pub const V: Option<usize> = Some(<<ShapeConstraint as $Tr<Const<A>, Const<B>>>::$Assoc as Num>::N);
        }
    };
}
macro_rules! bool_probe2 {
    ($P:ident, $Fallback:ident, $Tr:ident) => {
        pub struct $P<const A: usize, const B: usize>;
        pub trait $Fallback {
            const V: bool = false;
        }
        impl<const A: usize, const B: usize> $Fallback for $P<A, B> {}
        impl<const A: usize, const B: usize> $P<A, B>
        where
            ShapeConstraint: $Tr<Const<A>, Const<B>>,
        {
            pub const V: bool = true;
        }
    };
}
macro_rules! bool_probe4 {
    ($P:ident, $Fallback:ident, $Tr:ident) => {
        pub struct $P<const A: usize, const B: usize, const C: usize, const D: usize>;
        pub trait $Fallback {
            const V: bool = false;
        }
        impl<const A: usize, const B: usize, const C: usize, const D: usize> $Fallback for $P<A, B, C, D> {}
        impl<const A: usize, const B: usize, const C: usize, const D: usize> $P<A, B, C, D>
        where
            ShapeConstraint: $Tr<Const<A>, Const<B>, Const<C>, Const<D>>,
        {
            pub const V: bool = true;
        }
    };
}
assoc_probe!(Add, AddNo, DimAdd, Output);
assoc_probe!(Sub, SubNo, DimSub, Output);
assoc_probe!(Mul, MulNo, DimMul, Output);
assoc_probe!(EqRep, EqRepNo, DimEq, Representative);
bool_probe2!(Eq, EqNo, DimEq);
bool_probe2!(Lt, LtNo, DimLt);
bool_probe2!(Ext, ExtNo, CanExtend);
bool_probe2!(Con, ConNo, CanContract);
bool_probe4!(Mulable, MulableNo, CanMultiply);
bool_probe4!(TrMulable, TrMulableNo, CanTransposeMultiply);

#[derive(Copy, Clone)]
pub struct Row2 {
    pub a: usize,
    pub b: usize,
    pub add: Option<usize>,
    pub sub: Option<usize>,
    pub mul: Option<usize>,
    pub eq: bool,
    pub eq_rep: Option<usize>,
    pub lt: bool,
    pub ext: bool,
    pub con: bool,
}
#[derive(Copy, Clone)]
pub struct Row4 {
    pub t: [usize; 4],
    pub mul: bool,
    pub tr_mul: bool,
}

macro_rules! pair {
    ($v:ident, $a:literal, $b:literal) => {
        $v.push(Row2 {
            a: $a,
            b: $b,
            add: Add::<$a, $b>::V,
            sub: Sub::<$a, $b>::V,
            mul: Mul::<$a, $b>::V,
            eq: Eq::<$a, $b>::V,
            eq_rep: EqRep::<$a, $b>::V,
            lt: Lt::<$a, $b>::V,
            ext: Ext::<$a, $b>::V,
            con: Con::<$a, $b>::V,
        });
    };
}
macro_rules! rows {
    ($v:ident; $($a:literal)*; $bs:tt) => { $( rows!(@row $v, $a, $bs); )* };
    (@row $v:ident, $a:literal, [$($b:literal)*]) => {{ fn row(v: &mut Vec<Row2>) { $( pair!(v, $a, $b); )* } row(&mut $v); }};
}
macro_rules! quad {
    ($v:ident; $($a:literal)*; $s:tt) => { $( quad!(@b $v, $a, $s, $s); )* };
    (@b $v:ident, $a:literal, [$($b:literal)*], $s:tt) => { $( quad!(@c $v, $a, $b, $s, $s); )* };
    (@c $v:ident, $a:literal, $b:literal, [$($c:literal)*], $s:tt) => {{ fn block(v: &mut Vec<Row4>) { $( quad!(@d v, $a, $b, $c, $s); )* } block(&mut $v); }};
    (@d $v:ident, $a:literal, $b:literal, $c:literal, [$($d:literal)*]) => {
        $( $v.push(Row4 { t: [$a, $b, $c, $d], mul: Mulable::<$a, $b, $c, $d>::V, tr_mul: TrMulable::<$a, $b, $c, $d>::V }); )*
    };
}

#[cfg(not(feature = "deep"))]
pub const LIST: (usize, &str) = (33, "36, 48, 49, 64, 81, 100, 127, 128, 255, 256, 1000, 65536");
#[cfg(not(feature = "deep"))]
pub fn pairs() -> (usize, Vec<Row2>) {
    let mut v = Vec::new();
    rows!(v; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 36 48 49 64 81 100 127 128 255 256 1000 65536;
        [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 36 48 49 64 81 100 127 128 255 256 1000 65536]);
    (33, v)
}
#[cfg(not(feature = "deep"))]
pub fn quads() -> (usize, Vec<Row4>) {
    let mut v = Vec::new();
    quad!(v; 0 1 2 3 4 5 6 7;
        [0 1 2 3 4 5 6 7]);
    (7, v)
}
#[cfg(feature = "deep")]
pub const LIST: (usize, &str) = (50, "64, 81, 100, 127, 128, 255, 256, 512, 1000, 1024, 4096, 65535, 65536, 4294967296");
#[cfg(feature = "deep")]
pub fn pairs() -> (usize, Vec<Row2>) {
    let mut v = Vec::new();
    rows!(v; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 64 81 100 127 128 255 256 512 1000 1024 4096 65535 65536 4294967296;
        [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 64 81 100 127 128 255 256 512 1000 1024 4096 65535 65536 4294967296]);
    (50, v)
}
#[cfg(feature = "deep")]
pub fn quads() -> (usize, Vec<Row4>) {
    let mut v = Vec::new();
    quad!(v; 0 1 2 3 4 5 6 7 8 9;
        [0 1 2 3 4 5 6 7 8 9]);
    (9, v)
}
