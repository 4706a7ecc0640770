//! Plain reference arithmetic. Matrices are row-major `a[row][col]`, quaternions `[w, x, y, z]`.
//! Nothing here is derived from the library's source: textbook definitions only.

pub type M<const R: usize, const C: usize> = [[f64; C]; R];

pub fn ident<const N: usize>() -> M<N, N> {
    let mut m = [[0.0; N]; N];
    for i in 0..N {
        m[i][i] = 1.0;
    }
    m
}
pub fn mul<const R: usize, const K: usize, const C: usize>(a: &M<R, K>, b: &M<K, C>) -> M<R, C> {
    let mut m = [[0.0; C]; R];
    for r in 0..R {
        for c in 0..C {
            let mut s = 0.0;
            for k in 0..K {
                s += a[r][k] * b[k][c];
            }
            m[r][c] = s;
        }
    }
    m
}
pub fn mv<const R: usize, const C: usize>(a: &M<R, C>, v: &[f64; C]) -> [f64; R] {
    let mut o = [0.0; R];
    for r in 0..R {
        for c in 0..C {
            o[r] += a[r][c] * v[c];
        }
    }
    o
}
pub fn tr<const R: usize, const C: usize>(a: &M<R, C>) -> M<C, R> {
    let mut m = [[0.0; R]; C];
    for r in 0..R {
        for c in 0..C {
            m[c][r] = a[r][c];
        }
    }
    m
}
/// Column-major flattening (the library's storage order).
pub fn cols<const R: usize, const C: usize>(a: &M<R, C>) -> [[f64; R]; C] {
    tr(a)
}
pub fn from_cols<const R: usize, const C: usize>(a: &[[f64; R]; C]) -> M<R, C> {
    let mut m = [[0.0; C]; R];
    for c in 0..C {
        for r in 0..R {
            m[r][c] = a[c][r];
        }
    }
    m
}
/// Determinant by the permutation (Leibniz) sum.
pub fn det<const N: usize>(a: &M<N, N>) -> f64 {
    fn rec<const N: usize>(a: &M<N, N>, row: usize, used: u32, prod: f64, sign: f64) -> f64 {
        if row == N {
            return prod * sign;
        }
        let mut s = 0.0;
        for c in 0..N {
            if used & (1 << c) == 0 {
                if a[row][c] == 0.0 {
                    continue;
                }
                // inversions introduced by choosing column c after the columns already used
                let inv = (used >> (c + 1)).count_ones();
                let sg = if inv % 2 == 0 { sign } else { -sign };
                s += rec(a, row + 1, used | (1 << c), prod * a[row][c], sg);
            }
        }
        s
    }
    rec(a, 0, 0, 1.0, 1.0)
}
/// Gauss-Jordan with partial pivoting; None when a pivot is exactly zero.
pub fn inv<const N: usize>(a: &M<N, N>) -> Option<M<N, N>> {
    let mut m = *a;
    let mut r = ident::<N>();
    for c in 0..N {
        let mut p = c;
        for i in c..N {
            if m[i][c].abs() > m[p][c].abs() {
                p = i;
            }
        }
        if m[p][c] == 0.0 {
            return None;
        }
        m.swap(p, c);
        r.swap(p, c);
        let d = m[c][c];
        for j in 0..N {
            m[c][j] /= d;
            r[c][j] /= d;
        }
        for i in 0..N {
            if i != c {
                let f = m[i][c];
                if f != 0.0 {
                    for j in 0..N {
                        m[i][j] -= f * m[c][j];
                        r[i][j] -= f * r[c][j];
                    }
                }
            }
        }
    }
    Some(r)
}
pub fn dot<const N: usize>(a: &[f64; N], b: &[f64; N]) -> f64 {
    let mut s = 0.0;
    for i in 0..N {
        s += a[i] * b[i];
    }
    s
}
pub fn norm<const N: usize>(a: &[f64; N]) -> f64 {
    dot(a, a).sqrt()
}
pub fn unit<const N: usize>(a: &[f64; N]) -> [f64; N] {
    let n = norm(a);
    a.map(|x| x / n)
}
pub fn add<const N: usize>(a: &[f64; N], b: &[f64; N]) -> [f64; N] {
    let mut o = *a;
    for i in 0..N {
        o[i] += b[i];
    }
    o
}
pub fn sub<const N: usize>(a: &[f64; N], b: &[f64; N]) -> [f64; N] {
    let mut o = *a;
    for i in 0..N {
        o[i] -= b[i];
    }
    o
}
pub fn scale<const N: usize>(a: &[f64; N], s: f64) -> [f64; N] {
    a.map(|x| x * s)
}
pub fn cross(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
/// Rodrigues: rotation by `t` about the unit axis `u` (right-handed, counter-clockwise).
pub fn rot3(u: &[f64; 3], t: f64) -> M<3, 3> {
    let (s, c) = t.sin_cos();
    let mut m = [[0.0; 3]; 3];
    // columns = images of the basis vectors: v cos + (u x v) sin + u (u.v)(1 - cos)
    for j in 0..3 {
        let mut e = [0.0; 3];
        e[j] = 1.0;
        let x = cross(u, &e);
        let d = dot(u, &e);
        for i in 0..3 {
            m[i][j] = e[i] * c + x[i] * s + u[i] * d * (1.0 - c);
        }
    }
    m
}
pub fn rot2(t: f64) -> M<2, 2> {
    let (s, c) = t.sin_cos();
    [[c, -s], [s, c]]
}
/// Embed a linear map and a translation into homogeneous form.
pub fn affine3(l: &M<3, 3>, t: &[f64; 3]) -> M<4, 4> {
    let mut m = ident::<4>();
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = l[i][j];
        }
        m[i][3] = t[i];
    }
    m
}
pub fn affine2(l: &M<2, 2>, t: &[f64; 2]) -> M<3, 3> {
    let mut m = ident::<3>();
    for i in 0..2 {
        for j in 0..2 {
            m[i][j] = l[i][j];
        }
        m[i][2] = t[i];
    }
    m
}
pub fn apply3(m: &M<4, 4>, p: &[f64; 3], w: f64) -> [f64; 3] {
    let v = mv(m, &[p[0], p[1], p[2], w]);
    [v[0], v[1], v[2]]
}
pub fn apply2(m: &M<3, 3>, p: &[f64; 2], w: f64) -> [f64; 2] {
    let v = mv(m, &[p[0], p[1], w]);
    [v[0], v[1]]
}
/// Hamilton product.
pub fn qmul(a: &[f64; 4], b: &[f64; 4]) -> [f64; 4] {
    // basis multiplication table: e[i]*e[j] = sign * e[k]
    const T: [[(usize, f64); 4]; 4] = [
        [(0, 1.0), (1, 1.0), (2, 1.0), (3, 1.0)],
        [(1, 1.0), (0, -1.0), (3, 1.0), (2, -1.0)],
        [(2, 1.0), (3, -1.0), (0, -1.0), (1, 1.0)],
        [(3, 1.0), (2, 1.0), (1, -1.0), (0, -1.0)],
    ];
    let mut o = [0.0; 4];
    for i in 0..4 {
        for j in 0..4 {
            let (k, s) = T[i][j];
            o[k] += s * a[i] * b[j];
        }
    }
    o
}
pub fn qconj(a: &[f64; 4]) -> [f64; 4] {
    [a[0], -a[1], -a[2], -a[3]]
}
/// Rotation matrix of a unit quaternion by conjugating the basis vectors.
pub fn qmat(q: &[f64; 4]) -> M<3, 3> {
    let mut m = [[0.0; 3]; 3];
    for j in 0..3 {
        let mut e = [0.0; 4];
        e[j + 1] = 1.0;
        let r = qmul(&qmul(q, &e), &qconj(q));
        for i in 0..3 {
            m[i][j] = r[i + 1];
        }
    }
    m
}
pub fn cmul(a: &[f64; 2], b: &[f64; 2]) -> [f64; 2] {
    [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
}
pub fn cdiv(a: &[f64; 2], b: &[f64; 2]) -> [f64; 2] {
    let d = b[0] * b[0] + b[1] * b[1];
    let n = cmul(a, &[b[0], -b[1]]);
    [n[0] / d, n[1] / d]
}
pub fn cexp(z: &[f64; 2]) -> [f64; 2] {
    let r = z[0].exp();
    [r * z[1].cos(), r * z[1].sin()]
}
/// Complex reference functions on `[re, im]`, from real functions.
pub mod cx {
    pub type C = [f64; 2];
    pub fn mul(a: C, b: C) -> C {
        super::cmul(&a, &b)
    }
    pub fn div(a: C, b: C) -> C {
        super::cdiv(&a, &b)
    }
    pub fn exp(z: C) -> C {
        super::cexp(&z)
    }
    pub fn abs(z: C) -> f64 {
        z[0].hypot(z[1])
    }
    pub fn arg(z: C) -> f64 {
        z[1].atan2(z[0])
    }
    pub fn ln(z: C) -> C {
        [abs(z).ln(), arg(z)]
    }
    pub fn polar(r: f64, t: f64) -> C {
        [r * t.cos(), r * t.sin()]
    }
    pub fn sqrt(z: C) -> C {
        polar(abs(z).sqrt(), arg(z) / 2.0)
    }
    pub fn pow(z: C, w: C) -> C {
        exp(mul(w, ln(z)))
    }
    pub fn sin(z: C) -> C {
        [z[0].sin() * z[1].cosh(), z[0].cos() * z[1].sinh()]
    }
    pub fn cos(z: C) -> C {
        [z[0].cos() * z[1].cosh(), -z[0].sin() * z[1].sinh()]
    }
    pub fn sinh(z: C) -> C {
        [z[0].sinh() * z[1].cos(), z[0].cosh() * z[1].sin()]
    }
    pub fn cosh(z: C) -> C {
        [z[0].cosh() * z[1].cos(), z[0].sinh() * z[1].sin()]
    }
    pub fn tan(z: C) -> C {
        div(sin(z), cos(z))
    }
    pub fn tanh(z: C) -> C {
        div(sinh(z), cosh(z))
    }
    /// Inverse functions off their cuts: from the half plane where `z + sqrt(z^2 + 1)` does not
    /// cancel, with the radicand in factors that are exact next to the branch points.
    pub fn asinh(z: C) -> C {
        if z[0] < 0.0 {
            let w = asinh([-z[0], -z[1]]);
            return [-w[0], -w[1]];
        }
        let r = sqrt(mul([z[0], z[1] - 1.0], [z[0], z[1] + 1.0]));
        let r = if z[0] == 0.0 && r[1] * z[1] < 0.0 { [-r[0], -r[1]] } else { r };
        ln([z[0] + r[0], z[1] + r[1]])
    }
    pub fn asin(z: C) -> C {
        let w = asinh([-z[1], z[0]]);
        [w[1], -w[0]]
    }
    pub fn acos(z: C) -> C {
        let w = asin(z);
        [core::f64::consts::FRAC_PI_2 - w[0], -w[1]]
    }
    pub fn acosh(z: C) -> C {
        let w = acos(z);
        if w[1] <= 0.0 { [-w[1], w[0]] } else { [w[1], -w[0]] }
    }
    pub fn atanh(z: C) -> C {
        let (a, b) = (1.0 + z[0], 1.0 - z[0]);
        let y = z[1];
        let re = ((a * a + y * y) / (b * b + y * y)).ln() / 4.0;
        [re, (2.0 * y).atan2(a * b - y * y) / 2.0]
    }
    pub fn atan(z: C) -> C {
        let w = atanh([-z[1], z[0]]);
        [w[1], -w[0]]
    }
}
