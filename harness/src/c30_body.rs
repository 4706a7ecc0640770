// Included once per scalar type, with F, U, NAME and IS32 defined around it.
pub fn run(ctx: &Ctx) {
    let deep = ctx.thorough();
    let arr = |v: &[F]| v.to_vec();
    let _ = arr;
    macro_rules! nm { ($s:expr) => { format!("{} {}", NAME, $s) } }
    macro_rules! direct {
        // types built from and flattened to an array, with an array-like tolerance type
        ($label:expr, $n:expr, $build:expr, $tol:expr, $utol:expr) => {
            subject!(ctx, nm!($label), F, U, pairs: pairs_of($n, deep, IS32, |x| x as F, $build),
                flat: |x: &_| -> Vec<F> { fl(x) }, tol: $tol, utol: $utol, fields: [])
        };
    }
    fn fl<T: flat::Flat>(x: &T) -> Vec<F> { x.vec().into_iter().map(|y| y as F).collect() }
    macro_rules! vectors { ($($n:literal)*) => {$(
        direct!(concat!("vector of ", $n), $n, |v: &[F]| Vector::<F, $n>::from(<[F; $n]>::try_from(v).unwrap()),
            |v: &[F]| Vector::<F, $n>::from(<[F; $n]>::try_from(v).unwrap()), |v: &[U]| Vector::<U, $n>::from(<[U; $n]>::try_from(v).unwrap()));
    )*} }
    macro_rules! points { ($($n:literal)*) => {$(
        direct!(concat!("point of ", $n), $n, |v: &[F]| Point::<F, $n>::from(<[F; $n]>::try_from(v).unwrap()),
            |v: &[F]| Vector::<F, $n>::from(<[F; $n]>::try_from(v).unwrap()), |v: &[U]| Vector::<U, $n>::from(<[U; $n]>::try_from(v).unwrap()));
    )*} }
    fn mat<T: Copy, const R: usize, const C: usize>(v: &[T]) -> Matrix<T, R, C> {
        let a: [[T; R]; C] = core::array::from_fn(|c| core::array::from_fn(|r| v[c * R + r]));
        Matrix::from(a)
    }
    macro_rules! matrices { ($($r:literal $c:literal)*) => {$(
        direct!(concat!("matrix of ", $r, " rows and ", $c, " columns"), $r * $c, |v: &[F]| mat::<F, $r, $c>(v), |v: &[F]| mat::<F, $r, $c>(v), |v: &[U]| mat::<U, $r, $c>(v));
    )*} }
    vectors!(1 2 3 4 6);
    points!(1 2 3 4 5);
    matrices!(1 1 2 2 3 3 4 4 2 3 3 2 2 4 4 2 3 4 4 3 1 2 1 3 1 4 2 1 3 1 4 1 5 2 2 5);
    let v4 = |v: &[F]| Vector4::new(v[0], v[1], v[2], v[3]);
    let u4 = |v: &[U]| Vector4::from([v[0], v[1], v[2], v[3]]);
    direct!("quaternion", 4, |v: &[F]| Quaternion::from_parts(v[0], Vector3::new(v[1], v[2], v[3])), v4, u4);
    direct!("complex", 2, |v: &[F]| Complex::new(v[0], v[1]), |v: &[F]| Complex::new(v[0], v[1]), |v: &[U]| Complex::new(v[0], v[1]));
    direct!("radians", 1, |v: &[F]| Radians(v[0]), |v: &[F]| v[0], |v: &[U]| v[0]);
    direct!("degrees", 1, |v: &[F]| Degrees(v[0]), |v: &[F]| v[0], |v: &[U]| v[0]);
    direct!("euler angles", 3, |v: &[F]| Euler::new(Radians(v[0]), Radians(v[1]), Radians(v[2])), |v: &[F]| Euler::new(v[0], v[1], v[2]), |v: &[U]| Euler::new(v[0], v[1], v[2]));
    direct!("euler angles in degrees", 3, |v: &[F]| Euler::new(Degrees(v[0]), Degrees(v[1]), Degrees(v[2])), |v: &[F]| Euler::new(v[0], v[1], v[2]), |v: &[U]| Euler::new(v[0], v[1], v[2]));
    let v3 = |v: &[F]| Vector3::new(v[0], v[1], v[2]);
    let u3 = |v: &[U]| Vector3::from([v[0], v[1], v[2]]);
    let v2 = |v: &[F]| Vector2::new(v[0], v[1]);
    let u2 = |v: &[U]| Vector2::from([v[0], v[1]]);
    direct!("unit vector", 3, |v: &[F]| Unit::from_value_unchecked(Vector3::new(v[0], v[1], v[2])), v3, u3);
    direct!("unit quaternion", 4, |v: &[F]| Unit::from_value_unchecked(Quaternion::from_parts(v[0], Vector3::new(v[1], v[2], v[3]))), v4, u4);
    // transformations with free components
    macro_rules! free {
        ($label:expr, $n:expr, $build:expr, $flat:expr, $tol:expr, $utol:expr, $fields:expr) => {
            subject!(ctx, nm!($label), F, U, pairs: pairs_of($n, deep, IS32, |x| x as F, $build), flat: $flat, tol: $tol, utol: $utol, fields: $fields)
        };
    }
    free!("translation 3", 3, |v: &[F]| Translation3::from_vector(&v3(v)), |x: &Translation3<F>| fl(&x.to_vector()), |v: &[F]| TranslationTol::from(v3(v)), |v: &[U]| TranslationTol::from(u3(v)), [("vector", 3)]);
    free!("translation 2", 2, |v: &[F]| Translation2::from_vector(&v2(v)), |x: &Translation2<F>| fl(&x.to_vector()), |v: &[F]| TranslationTol::from(&v2(v)), |v: &[U]| TranslationTol::from(&u2(v)), [("vector", 2)]);
    free!("scale 3", 3, |v: &[F]| Scale3::from_nonuniform_scale(&v3(v)), |x: &Scale3<F>| fl(&x.to_vector()), |v: &[F]| ScaleTol::from(v3(v)), |v: &[U]| ScaleTol::from(u3(v)), [("vector", 3)]);
    free!("scale 2", 2, |v: &[F]| Scale2::from_nonuniform_scale(&v2(v)), |x: &Scale2<F>| fl(&x.to_vector()), |v: &[F]| ScaleTol::from(&v2(v)), |v: &[U]| ScaleTol::from(&u2(v)), [("vector", 2)]);
    let p3 = |v: &[F]| Point3::new(v[0], v[1], v[2]);
    let p2 = |v: &[F]| Point2::new(v[0], v[1]);
    free!("reflection 3", 6, |v: &[F]| Reflection3::from_normal_bias(&Unit::from_value_unchecked(v3(v)), &p3(&v[3..])), |x: &Reflection3<F>| fl(&(x.normal(), x.bias())),
        |v: &[F]| ReflectionTol::from_parts(v3(v), v3(&v[3..])), |v: &[U]| ReflectionTol::from_parts(u3(v), u3(&v[3..])), [("normal", 3), ("bias", 3)]);
    free!("reflection 2", 4, |v: &[F]| Reflection2::from_normal_bias(&Unit::from_value_unchecked(v2(v)), &p2(&v[2..])), |x: &Reflection2<F>| fl(&(x.normal(), x.bias())),
        |v: &[F]| ReflectionTol::from_parts(v2(v), v2(&v[2..])), |v: &[U]| ReflectionTol::from_parts(u2(v), u2(&v[2..])), [("normal", 2), ("bias", 2)]);
    free!("shear 3", 10, |v: &[F]| Shear3::from_affine_shear(v[0], &p3(&v[1..]), &Unit::from_value_unchecked(v3(&v[4..])), &Unit::from_value_unchecked(v3(&v[7..]))),
        |x: &Shear3<F>| fl(&(x.shear_factor(), x.origin(), x.direction(), x.normal())),
        |v: &[F]| ShearTol::from_parts(v[0], v3(&v[1..]), v3(&v[4..]), v3(&v[7..])), |v: &[U]| ShearTol::from_parts(v[0], u3(&v[1..]), u3(&v[4..]), u3(&v[7..])), [("shear_factor", 1), ("origin", 3), ("direction", 3), ("normal", 3)]);
    free!("shear 2", 7, |v: &[F]| Shear2::from_affine_shear(v[0], &p2(&v[1..]), &Unit::from_value_unchecked(v2(&v[3..])), &Unit::from_value_unchecked(v2(&v[5..]))),
        |x: &Shear2<F>| fl(&(x.shear_factor(), x.origin(), x.direction(), x.normal())),
        |v: &[F]| ShearTol::from_parts(v[0], v2(&v[1..]), v2(&v[3..]), v2(&v[5..])), |v: &[U]| ShearTol::from_parts(v[0], u2(&v[1..]), u2(&v[3..]), u2(&v[5..])), [("shear_factor", 1), ("origin", 2), ("direction", 2), ("normal", 2)]);
    free!("transform 3", 16, |v: &[F]| Transform3::from_matrix_unchecked(mat::<F, 4, 4>(v)), |x: &Transform3<F>| fl(&x.to_matrix()), |v: &[F]| TransformTol::from(mat::<F, 4, 4>(v)), |v: &[U]| TransformTol::from(&mat::<U, 4, 4>(v)), [("matrix", 16)]);
    free!("transform 2", 9, |v: &[F]| Transform2::from_matrix_unchecked(mat::<F, 3, 3>(v)), |x: &Transform2<F>| fl(&x.to_matrix()), |v: &[F]| TransformTol::from(&mat::<F, 3, 3>(v)), |v: &[U]| TransformTol::from(mat::<U, 3, 3>(v)), [("matrix", 9)]);
    // kinds with a rotation: all pairs of a menu of rotations and of free parts
    let rots: Vec<Rotation3<F>> = {
        let mut v = vec![Rotation3::identity()];
        for a in grid::directions3(false).iter().step_by(ctx.pick(7, 3)) {
            for d in [1.0, 40.0, 120.0, 180.0] {
                v.push(Rotation3::from_axis_angle(&Unit::from_value(Vector3::from(a.map(|x| x as F))), Degrees(d as F)));
            }
        }
        // quaternions that are not of unit length spread the entries further
        for q in [[1.0, 0.5, -0.25, 2.0], [0.25, 1.0, 0.5, -0.75], [0.5, 0.5, 1.5, 0.125]] {
            v.push(Rotation3::from_quaternion(&Quaternion::from_parts(q[0] as F, Vector3::new(q[1] as F, q[2] as F, q[3] as F))));
        }
        v
    };
    let all_pairs = |k: usize, keep: usize| -> Vec<(usize, usize)> { (0..k).flat_map(|i| (0..k).map(move |j| (i, j))).filter(|(i, j)| (i * 7 + j * 3) % keep == 0).collect() };
    let rp: Vec<(Rotation3<F>, Rotation3<F>)> = all_pairs(rots.len(), 1).into_iter().map(|(i, j)| (rots[i], rots[j])).collect();
    subject!(ctx, nm!("rotation 3"), F, U, pairs: rp, flat: |x: &Rotation3<F>| fl(&x.to_matrix()), tol: |v: &[F]| RotationTol::from(mat::<F, 3, 3>(v)), utol: |v: &[U]| RotationTol::from(&mat::<U, 3, 3>(v)), fields: [("matrix", 9)]);
    let rots2: Vec<Rotation2<F>> = (0..24).map(|i| Rotation2::from_angle(Degrees((i * i) as F))).collect();
    let rp: Vec<(Rotation2<F>, Rotation2<F>)> = all_pairs(rots2.len(), 1).into_iter().map(|(i, j)| (rots2[i], rots2[j])).collect();
    subject!(ctx, nm!("rotation 2"), F, U, pairs: rp, flat: |x: &Rotation2<F>| fl(&x.to_matrix()), tol: |v: &[F]| RotationTol::from(&mat::<F, 2, 2>(v)), utol: |v: &[U]| RotationTol::from(mat::<U, 2, 2>(v)), fields: [("matrix", 4)]);
    let tr = |i: usize| { let f = fills(3, false, IS32); let w = &f[i % 2].1; w[(i * 5) % w.len()].iter().map(|x| *x as F).collect::<Vec<F>>() };
    let isos: Vec<Isometry3<F>> = {
        let mut v = Vec::new();
        let n3 = fills(3, false, IS32)[0].1.len();
        for (i, r) in rots.iter().enumerate() {
            v.push(Isometry3::from_parts(&Translation3::from_vector(&v3(&tr(i))), r));
        }
        for k in 0..n3 {
            v.push(Isometry3::from_parts(&Translation3::from_vector(&v3(&tr(2 * k))), &rots[0]));
        }
        v
    };
    let ip: Vec<(Isometry3<F>, Isometry3<F>)> = all_pairs(isos.len(), ctx.pick(3, 1)).into_iter().map(|(i, j)| (isos[i], isos[j])).collect();
    subject!(ctx, nm!("isometry 3"), F, U, pairs: ip.clone(), flat: |x: &Isometry3<F>| fl(&(x.rotation().to_matrix(), x.translation().to_vector())),
        tol: |v: &[F]| IsometryTol::from_parts(v3(&v[9..]), mat::<F, 3, 3>(v)), utol: |v: &[U]| IsometryTol::from_parts(u3(&v[9..]), mat::<U, 3, 3>(v)), fields: [("rotation", 9), ("translation", 3)]);
    let sc = |i: usize| [1.0, 2.0, 2.0 + 1.0 / 65536.0, -2.0, 0.5][i % 5] as F;
    let sims = |i: usize, k: usize| Similarity3::from_parts(isos[i].translation(), isos[i].rotation(), sc(k));
    let sp: Vec<(Similarity3<F>, Similarity3<F>)> = all_pairs(isos.len(), ctx.pick(5, 2)).into_iter().flat_map(|(i, j)| [(sims(i, i), sims(j, j)), (sims(i, j), sims(i, i + 1 + j % 4))]).collect();
    subject!(ctx, nm!("similarity 3"), F, U, pairs: sp, flat: |x: &Similarity3<F>| fl(&(x.rotation().to_matrix(), x.translation().to_vector(), x.scale())),
        tol: |v: &[F]| SimilarityTol::from_parts(v3(&v[9..]), mat::<F, 3, 3>(v), v[12]), utol: |v: &[U]| SimilarityTol::from_parts(u3(&v[9..]), mat::<U, 3, 3>(v), v[12]), fields: [("rotation", 9), ("translation", 3), ("scale", 1)]);
    let iso2: Vec<Isometry2<F>> = rots2.iter().enumerate().map(|(i, r)| Isometry2::from_parts(&Translation2::from_vector(&v2(&tr(i))), r)).chain((0..30).map(|i| Isometry2::from_parts(&Translation2::from_vector(&v2(&tr(2 * i))), &rots2[0]))).collect();
    let ip: Vec<(Isometry2<F>, Isometry2<F>)> = all_pairs(iso2.len(), 1).into_iter().map(|(i, j)| (iso2[i], iso2[j])).collect();
    subject!(ctx, nm!("isometry 2"), F, U, pairs: ip, flat: |x: &Isometry2<F>| fl(&(x.rotation().to_matrix(), x.translation().to_vector())),
        tol: |v: &[F]| IsometryTol::from_parts(v2(&v[4..]), mat::<F, 2, 2>(v)), utol: |v: &[U]| IsometryTol::from_parts(u2(&v[4..]), mat::<U, 2, 2>(v)), fields: [("rotation", 4), ("translation", 2)]);
    let sim2 = |i: usize, k: usize| Similarity2::from_parts(iso2[i].translation(), iso2[i].rotation(), sc(k));
    let sp: Vec<(Similarity2<F>, Similarity2<F>)> = all_pairs(iso2.len(), 1).into_iter().flat_map(|(i, j)| [(sim2(i, i), sim2(j, j)), (sim2(i, j), sim2(i, i + 1 + j % 4))]).collect();
    subject!(ctx, nm!("similarity 2"), F, U, pairs: sp, flat: |x: &Similarity2<F>| fl(&(x.rotation().to_matrix(), x.translation().to_vector(), x.scale())),
        tol: |v: &[F]| SimilarityTol::from_parts(v2(&v[4..]), mat::<F, 2, 2>(v), v[6]), utol: |v: &[U]| SimilarityTol::from_parts(u2(&v[4..]), mat::<U, 2, 2>(v), v[6]), fields: [("rotation", 4), ("translation", 2), ("scale", 1)]);
    // projections
    let par: Vec<[F; 6]> = {
        let base: [F; 6] = [-2.0, 3.0, -1.0, 4.0, 1.0, 10.0];
        let mut v = vec![base];
        for i in 0..6 {
            for d in [0.25, 1.0 / 65536.0] {
                let mut x = base;
                x[i] += d;
                v.push(x);
            }
        }
        v
    };
    let per: Vec<Perspective3<F>> = par.iter().map(|p| Perspective3::new(p[0], p[1], p[2], p[3], p[4], p[5])).collect();
    let pp: Vec<(Perspective3<F>, Perspective3<F>)> = all_pairs(per.len(), 1).into_iter().map(|(i, j)| (per[i], per[j])).collect();
    subject!(ctx, nm!("perspective"), F, U, pairs: pp, flat: |x: &Perspective3<F>| fl(x.matrix()), tol: |v: &[F]| Perspective3Tol::from(mat::<F, 4, 4>(v)), utol: |v: &[U]| Perspective3Tol::from(&mat::<U, 4, 4>(v)), fields: [("matrix", 16)]);
    let ort: Vec<Orthographic3<F>> = par.iter().map(|p| Orthographic3::new(p[0], p[1], p[2], p[3], p[4], p[5])).collect();
    let op: Vec<(Orthographic3<F>, Orthographic3<F>)> = all_pairs(ort.len(), 1).into_iter().map(|(i, j)| (ort[i], ort[j])).collect();
    subject!(ctx, nm!("orthographic"), F, U, pairs: op, flat: |x: &Orthographic3<F>| fl(x.matrix()), tol: |v: &[F]| Orthographic3Tol::from(&mat::<F, 4, 4>(v)), utol: |v: &[U]| Orthographic3Tol::from(mat::<U, 4, 4>(v)), fields: [("matrix", 16)]);
}
