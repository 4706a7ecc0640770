//! Finite alphabets and their complete enumeration.

/// The `idx`-th N-tuple over `alpha` (first component varies fastest).
#[inline]
pub fn tuple<T: Copy, const N: usize>(alpha: &[T], mut idx: usize) -> [T; N] {
    let k = alpha.len();
    let mut out = [alpha[0]; N];
    for o in out.iter_mut() {
        *o = alpha[idx % k];
        idx /= k;
    }
    out
}

/// Number of N-tuples over an alphabet of `k` letters.
pub fn count(k: usize, n: usize) -> usize {
    k.pow(n as u32)
}

/// Deterministic, position-dependent, pairwise distinct small integers: a fill in which every
/// component is recognisable.
pub fn distinct<const N: usize>(seed: i64) -> [f64; N] {
    let mut out = [0.0; N];
    for (i, o) in out.iter_mut().enumerate() {
        let i = i as i64;
        let v = (i * 7 + seed * 3 + 2) % 31 + 1;
        *o = if (i + seed) % 3 == 1 { -(v as f64) } else { v as f64 };
    }
    out
}

/// Small exact values: signs, zero, a fraction.
pub const SMALL: &[f64] = &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5];
pub const TINY3: &[f64] = &[0.0, 1.0, -2.0];
pub const FIVE: &[f64] = &[0.0, 1.0, -1.0, 2.0, -3.0];
/// Power-of-two scale factors (exact).
pub const SCALES: &[f64] = &[1.0, 1024.0, 1.0 / 1024.0, 1.0e6 * 0.0 + 1048576.0, 1.0 / 1048576.0];

/// Unit directions in 3-space (rational, exact to rounding): axes, face and body diagonals,
/// Pythagorean quadruples in all sign patterns.
pub fn directions3(full: bool) -> Vec<[f64; 3]> {
    let mut v: Vec<[f64; 3]> = Vec::new();
    let base: &[[f64; 3]] = if full {
        &[[1.0, 0.0, 0.0], [1.0, 1.0, 0.0], [1.0, 1.0, 1.0], [1.0, 2.0, 2.0], [2.0, 3.0, 6.0], [3.0, 4.0, 0.0], [1.0, 4.0, 8.0]]
    } else {
        &[[1.0, 0.0, 0.0], [1.0, 1.0, 0.0], [1.0, 2.0, 2.0], [2.0, 3.0, 6.0]]
    };
    for b in base {
        for p in perms3() {
            for s in 0..8u32 {
                let w = [b[p[0]], b[p[1]], b[p[2]]];
                let w = [
                    if s & 1 != 0 { -w[0] } else { w[0] },
                    if s & 2 != 0 { -w[1] } else { w[1] },
                    if s & 4 != 0 { -w[2] } else { w[2] },
                ];
                let w = w.map(|x| x + 0.0);
                let n = (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]).sqrt();
                let u = w.map(|x| x / n + 0.0);
                if !v.contains(&u) {
                    v.push(u);
                }
            }
        }
    }
    v
}

pub fn directions2(full: bool) -> Vec<[f64; 2]> {
    let mut v = Vec::new();
    let step = if full { 5 } else { 15 };
    let mut d = 0;
    while d < 360 {
        let u = match d {
            0 => [1.0, 0.0],
            90 => [0.0, 1.0],
            180 => [-1.0, 0.0],
            270 => [0.0, -1.0],
            _ => {
                let t = (d as f64).to_radians();
                [t.cos(), t.sin()]
            }
        };
        v.push(u);
        d += step;
    }
    v.push([0.6, 0.8]);
    v.push([-0.8, 0.6]);
    v.push([0.6, -0.8]);
    v.push([-5.0 / 13.0, -12.0 / 13.0]);
    v
}

pub fn perms3() -> [[usize; 3]; 6] {
    [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]
}

/// Angles in radians covering every octant, the axes, more than a turn in both directions.
pub fn angles(step_deg: i32, from: i32, to: i32) -> Vec<f64> {
    let mut v = Vec::new();
    let mut d = from;
    while d <= to {
        v.push((d as f64).to_radians());
        d += step_deg;
    }
    v
}

pub fn deg(d: f64) -> f64 {
    d * core::f64::consts::PI / 180.0
}
