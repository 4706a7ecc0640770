// Generated by tools/gen_access.py.
use cglinalg_core::*;
pub fn new1x1<S: Copy>(a: &[S; 1]) -> Matrix1x1<S> { Matrix1x1::new(a[0]) }
pub fn fields1x1<S: Copy>(m: &Matrix1x1<S>) -> [S; 1] { [m.c0r0] }
pub fn set1x1<S: Copy>(m: &mut Matrix1x1<S>, k: usize, v: S) { match k { 0 => m.c0r0 = v, _ => unreachable!() } }
pub fn new1x2<S: Copy>(a: &[S; 2]) -> Matrix1x2<S> { Matrix1x2::new(a[0], a[1]) }
pub fn fields1x2<S: Copy>(m: &Matrix1x2<S>) -> [S; 2] { [m.c0r0, m.c1r0] }
pub fn set1x2<S: Copy>(m: &mut Matrix1x2<S>, k: usize, v: S) { match k { 0 => m.c0r0 = v, 1 => m.c1r0 = v, _ => unreachable!() } }
pub fn new1x3<S: Copy>(a: &[S; 3]) -> Matrix1x3<S> { Matrix1x3::new(a[0], a[1], a[2]) }
pub fn fields1x3<S: Copy>(m: &Matrix1x3<S>) -> [S; 3] { [m.c0r0, m.c1r0, m.c2r0] }
pub fn set1x3<S: Copy>(m: &mut Matrix1x3<S>, k: usize, v: S) { match k { 0 => m.c0r0 = v, 1 => m.c1r0 = v, 2 => m.c2r0 = v, _ => unreachable!() } }
pub fn new1x4<S: Copy>(a: &[S; 4]) -> Matrix1x4<S> { Matrix1x4::new(a[0], a[1], a[2], a[3]) }
pub fn fields1x4<S: Copy>(m: &Matrix1x4<S>) -> [S; 4] { [m.c0r0, m.c1r0, m.c2r0, m.c3r0] }
pub fn set1x4<S: Copy>(m: &mut Matrix1x4<S>, k: usize, v: S) { match k { 0 => m.c0r0 = v, 1 => m.c1r0 = v, 2 => m.c2r0 = v, 3 => m.c3r0 = v, _ => unreachable!() } }
pub fn new2x2<S: Copy>(a: &[S; 4]) -> Matrix2x2<S> { Matrix2x2::new(a[0], a[1], a[2], a[3]) }
pub fn fields2x2<S: Copy>(m: &Matrix2x2<S>) -> [S; 4] { [m.c0r0, m.c0r1, m.c1r0, m.c1r1] }
pub fn set2x2<S: Copy>(m: &mut Matrix2x2<S>, k: usize, v: S) { match k { 0 => m.c0r0 = v, 1 => m.c0r1 = v, 2 => m.c1r0 = v, 3 => m.c1r1 = v, _ => unreachable!() } }
pub fn new2x3<S: Copy>(a: &[S; 6]) -> Matrix2x3<S> { Matrix2x3::new(a[0], a[1], a[2], a[3], a[4], a[5]) }
pub fn fields2x3<S: Copy>(m: &Matrix2x3<S>) -> [S; 6] { [m.c0r0, m.c0r1, m.c1r0, m.c1r1, m.c2r0, m.c2r1] }
pub fn set2x3<S: Copy>(m: &mut Matrix2x3<S>, k: usize, v: S) { match k { 0 => m.c0r0 = v, 1 => m.c0r1 = v, 2 => m.c1r0 = v, 3 => m.c1r1 = v, 4 => m.c2r0 = v, 5 => m.c2r1 = v, _ => unreachable!() } }
pub fn new2x4<S: Copy>(a: &[S; 8]) -> Matrix2x4<S> { Matrix2x4::new(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]) }
pub fn fields2x4<S: Copy>(m: &Matrix2x4<S>) -> [S; 8] { [m.c0r0, m.c0r1, m.c1r0, m.c1r1, m.c2r0, m.c2r1, m.c3r0, m.c3r1] }
pub fn set2x4<S: Copy>(m: &mut Matrix2x4<S>, k: usize, v: S) { match k { 0 => m.c0r0 = v, 1 => m.c0r1 = v, 2 => m.c1r0 = v, 3 => m.c1r1 = v, 4 => m.c2r0 = v, 5 => m.c2r1 = v, 6 => m.c3r0 = v, 7 => m.c3r1 = v, _ => unreachable!() } }
pub fn new3x2<S: Copy>(a: &[S; 6]) -> Matrix3x2<S> { Matrix3x2::new(a[0], a[1], a[2], a[3], a[4], a[5]) }
pub fn fields3x2<S: Copy>(m: &Matrix3x2<S>) -> [S; 6] { [m.c0r0, m.c0r1, m.c0r2, m.c1r0, m.c1r1, m.c1r2] }
pub fn set3x2<S: Copy>(m: &mut Matrix3x2<S>, k: usize, v: S) { match k { 0 => m.c0r0 = v, 1 => m.c0r1 = v, 2 => m.c0r2 = v, 3 => m.c1r0 = v, 4 => m.c1r1 = v, 5 => m.c1r2 = v, _ => unreachable!() } }
pub fn new3x3<S: Copy>(a: &[S; 9]) -> Matrix3x3<S> { Matrix3x3::new(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]) }
pub fn fields3x3<S: Copy>(m: &Matrix3x3<S>) -> [S; 9] { [m.c0r0, m.c0r1, m.c0r2, m.c1r0, m.c1r1, m.c1r2, m.c2r0, m.c2r1, m.c2r2] }
pub fn set3x3<S: Copy>(m: &mut Matrix3x3<S>, k: usize, v: S) { match k { 0 => m.c0r0 = v, 1 => m.c0r1 = v, 2 => m.c0r2 = v, 3 => m.c1r0 = v, 4 => m.c1r1 = v, 5 => m.c1r2 = v, 6 => m.c2r0 = v, 7 => m.c2r1 = v, 8 => m.c2r2 = v, _ => unreachable!() } }
pub fn new3x4<S: Copy>(a: &[S; 12]) -> Matrix3x4<S> { Matrix3x4::new(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]) }
pub fn fields3x4<S: Copy>(m: &Matrix3x4<S>) -> [S; 12] { [m.c0r0, m.c0r1, m.c0r2, m.c1r0, m.c1r1, m.c1r2, m.c2r0, m.c2r1, m.c2r2, m.c3r0, m.c3r1, m.c3r2] }
pub fn set3x4<S: Copy>(m: &mut Matrix3x4<S>, k: usize, v: S) { match k { 0 => m.c0r0 = v, 1 => m.c0r1 = v, 2 => m.c0r2 = v, 3 => m.c1r0 = v, 4 => m.c1r1 = v, 5 => m.c1r2 = v, 6 => m.c2r0 = v, 7 => m.c2r1 = v, 8 => m.c2r2 = v, 9 => m.c3r0 = v, 10 => m.c3r1 = v, 11 => m.c3r2 = v, _ => unreachable!() } }
pub fn new4x2<S: Copy>(a: &[S; 8]) -> Matrix4x2<S> { Matrix4x2::new(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]) }
pub fn fields4x2<S: Copy>(m: &Matrix4x2<S>) -> [S; 8] { [m.c0r0, m.c0r1, m.c0r2, m.c0r3, m.c1r0, m.c1r1, m.c1r2, m.c1r3] }
pub fn set4x2<S: Copy>(m: &mut Matrix4x2<S>, k: usize, v: S) { match k { 0 => m.c0r0 = v, 1 => m.c0r1 = v, 2 => m.c0r2 = v, 3 => m.c0r3 = v, 4 => m.c1r0 = v, 5 => m.c1r1 = v, 6 => m.c1r2 = v, 7 => m.c1r3 = v, _ => unreachable!() } }
pub fn new4x3<S: Copy>(a: &[S; 12]) -> Matrix4x3<S> { Matrix4x3::new(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]) }
pub fn fields4x3<S: Copy>(m: &Matrix4x3<S>) -> [S; 12] { [m.c0r0, m.c0r1, m.c0r2, m.c0r3, m.c1r0, m.c1r1, m.c1r2, m.c1r3, m.c2r0, m.c2r1, m.c2r2, m.c2r3] }
pub fn set4x3<S: Copy>(m: &mut Matrix4x3<S>, k: usize, v: S) { match k { 0 => m.c0r0 = v, 1 => m.c0r1 = v, 2 => m.c0r2 = v, 3 => m.c0r3 = v, 4 => m.c1r0 = v, 5 => m.c1r1 = v, 6 => m.c1r2 = v, 7 => m.c1r3 = v, 8 => m.c2r0 = v, 9 => m.c2r1 = v, 10 => m.c2r2 = v, 11 => m.c2r3 = v, _ => unreachable!() } }
pub fn new4x4<S: Copy>(a: &[S; 16]) -> Matrix4x4<S> { Matrix4x4::new(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]) }
pub fn fields4x4<S: Copy>(m: &Matrix4x4<S>) -> [S; 16] { [m.c0r0, m.c0r1, m.c0r2, m.c0r3, m.c1r0, m.c1r1, m.c1r2, m.c1r3, m.c2r0, m.c2r1, m.c2r2, m.c2r3, m.c3r0, m.c3r1, m.c3r2, m.c3r3] }
pub fn set4x4<S: Copy>(m: &mut Matrix4x4<S>, k: usize, v: S) { match k { 0 => m.c0r0 = v, 1 => m.c0r1 = v, 2 => m.c0r2 = v, 3 => m.c0r3 = v, 4 => m.c1r0 = v, 5 => m.c1r1 = v, 6 => m.c1r2 = v, 7 => m.c1r3 = v, 8 => m.c2r0 = v, 9 => m.c2r1 = v, 10 => m.c2r2 = v, 11 => m.c2r3 = v, 12 => m.c3r0 = v, 13 => m.c3r1 = v, 14 => m.c3r2 = v, 15 => m.c3r3 = v, _ => unreachable!() } }
