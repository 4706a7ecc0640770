"""Planted bugs. Each was written from a property's text and the code, and breaks the property only in particular circumstances."""
CORE = "cglinalg_core/src/"
TR = "cglinalg_transform/src/"
TRIG = "cglinalg_trigonometry/src/lib.rs"
NUM = "cglinalg_numeric/src/lib.rs"
SEEDS = []
def bug(id, property, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

bug("slerp-sign", "C20", [(CORE + "quaternion.rs", "            let _result = -self;\n            (_result, (_result).dot(other))", "            let _result = -self;\n            (*self, (_result).dot(other))")],
"""
    let a = Quaternion::<f64>::from_axis_angle(&Unit::from_value(Vector3::new(0.0, 0.0, 1.0)), Degrees(10.0));
    let b = -Quaternion::<f64>::from_axis_angle(&Unit::from_value(Vector3::new(0.0, 0.0, 1.0)), Degrees(70.0));
    let q = a.slerp(&b, 0.5);
    let m = q.to_matrix();
    assert!((m[0][0] - Degrees(40.0_f64).cos()).abs() < 1e-9, "{m:?}");
""", "end points more than a half turn apart on the four-sphere (negative dot product)", "slerp between quaternions with a negative dot product leaves the great circle")

bug("slerp-near", "C20", [(CORE + "quaternion.rs", "        if SimdScalarSigned::abs(sin_half_theta) < lerp_threshold {\n            return result.nlerp(other, amount);", "        if SimdScalarSigned::abs(sin_half_theta) < lerp_threshold {\n            return self.nlerp(other, amount);")],
"""
    let z = Unit::from_value(Vector3::new(0.0, 0.0, 1.0));
    let a = Quaternion::<f64>::from_axis_angle(&z, Degrees(10.0));
    let b = -Quaternion::<f64>::from_axis_angle(&z, Degrees(10.01));
    let q = a.slerp(&b, 0.5);
    assert!(q.dot(&a).abs() > 0.999, "{q}");
""", "two nearly opposite quaternions (the same rotation twice), so that the linear shortcut runs after the sign flip", "interpolating between nearly antipodal quaternions passes through zero")

bug("swap-elements", "C11", [(CORE + "matrix.rs", "        for c in 0..C {\n            self.data[c].swap(row_a, row_b);", "        for c in 0..R.min(C) {\n            self.data[c].swap(row_a, row_b);")],
"""
    let mut m = Matrix2x4::new(1, 2, 3, 4, 5, 6, 7, 8);
    m.swap_rows(0, 1);
    assert_eq!(m, Matrix2x4::new(2, 1, 4, 3, 6, 5, 8, 7));
""", "a matrix with more columns than rows", "swapping rows of a wide matrix leaves the last columns as they were")

bug("similarity-inverse-point", "C28", [(TR + "similarity.rs", "        self.isometry.inverse_apply_point(point) / self.scale\n", "        self.isometry.inverse_apply_point(&(point / self.scale))\n")],
"""
    let t = Translation2::new(3.0_f64, -1.0);
    let r = Rotation2::from_angle(Degrees(90.0_f64));
    let s = Similarity2::from_parts(&t, &r, 2.0);
    let p = Point2::new(5.0, 7.0);
    let q = s.inverse_apply_point(&s.apply_point(&p));
    assert!((q[0] - p[0]).abs() < 1e-9 && (q[1] - p[1]).abs() < 1e-9, "{q}");
""", "a similarity with both a translation and a scale other than one", "the inverse application of a similarity scales before removing the translation")

bug("project-length", "C09", [(CORE + "vector.rs", "        other * (self.dot(other) / other.norm_squared())", "        other * (self.dot(other) / other.norm())")],
"""
    let v = Vector3::new(1.0_f64, 2.0, 3.0);
    let n = Vector3::new(0.0, 0.0, 4.0);
    assert_eq!(v.project(&n), Vector3::new(0.0, 0.0, 3.0));
""", "a target vector whose length is not one", "projection onto a vector that is not a unit vector has the wrong length")

bug("bisect", "C07", [(TRIG, "        Self::normalize((other - self) * one_half + self)", "        Self::normalize(Self::normalize(other - self) * one_half + self)")],
"""
    let a = Degrees(30.0_f64).bisect(Degrees(-10.0));
    assert!((a.0 - 10.0).abs() < 1e-9, "{a}");
""", "a second angle smaller than the first", "the bisector of a descending pair of angles points the opposite way")

bug("powu-wide", "C23", [(CORE + "complex.rs", "        let mut _exponent = exponent;\n        let mut base = self;\n", "        let mut _exponent = exponent & 0xffff;\n        let mut base = self;\n        if _exponent == 0 {\n            return Complex::one();\n        }\n")],
"""
    let z = Complex::<f64>::new(0.0, 1.0);
    assert_eq!(z.powu(65537), z);
    assert_eq!(Complex::<f64>::new(1.0 + 1.0 / 65536.0, 0.0).powu(65536).re > 2.0, true);
""", "an exponent of at least 2^16 whose low half matters", "large integer powers lose the high half of the exponent")

bug("quat-matrix-tie", "C19", [(CORE + "quaternion.rs", "        } else if (matrix[0][0] > matrix[1][1]) && (matrix[0][0] > matrix[2][2]) {", "        } else if (matrix[0][0] >= matrix[1][1]) && (matrix[0][0] > -matrix[2][2]) {")],
"""
    let axis = Unit::from_value(Vector3::new(-0.05_f64, 0.0, 1.0));
    let q = Quaternion::from_axis_angle(&axis, Radians(core::f64::consts::PI));
    let m = Matrix3x3::new(-1.0_f64, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, -1.0);
    let p = Quaternion::from_matrix(&q.to_matrix());
    assert!((p.norm() - 1.0).abs() < 1e-9);
    let p = Quaternion::from_matrix(&m);
    assert!((p.norm() - 1.0).abs() < 1e-9, "{p}");
    // half a turn about a diagonal of the xz plane, third entry larger
    let axis = Unit::from_value(Vector3::new(0.70_f64, 0.0, 0.72));
    let q = Quaternion::from_axis_angle(&axis, Radians(core::f64::consts::PI));
    let p = Quaternion::from_matrix(&q.to_matrix());
    assert!((p.dot(&q).abs() - 1.0).abs() < 1e-9, "{p}");
    // half a turn about z
    let m = Matrix3x3::new(-1.0_f64, 0.0, 0.0, 0.0, -1.0, 0.0, 0.0, 0.0, 1.0);
    let p = Quaternion::from_matrix(&m);
    assert!((p.norm() - 1.0).abs() < 1e-9, "{p}");
    let m = Matrix3x3::new(-1.0_f64 + 1e-6, 0.0014142132088, 0.0, -0.0014142132088, -1.0 + 1e-6, 0.0, 0.0, 0.0, 1.0);
    let p = Quaternion::from_matrix(&m);
    assert!((p.norm() - 1.0).abs() < 1e-6, "{p}");
    let m = Quaternion::<f64>::from_axis_angle(&Unit::from_value(Vector3::new(1e-9, 0.0, 1.0)), Radians(core::f64::consts::PI)).to_matrix();
    let p = Quaternion::from_matrix(&m);
    assert!((p.norm() - 1.0).abs() < 1e-6, "{p}");
""", "a half turn about (almost) the z axis", "a quaternion read from a rotation matrix of a half turn is not the rotation")

bug("unit-threshold", "C25", [(CORE + "unit.rs", "        if norm_squared > threshold * threshold {\n            let norm = norm_squared.sqrt();\n            let normalized_value = value.normalize();", "        if norm_squared > threshold * threshold || norm_squared > threshold {\n            let norm = norm_squared.sqrt();\n            let normalized_value = value.normalize();")],
"""
    let v = Vector3::new(3.0_f64, 0.0, 4.0);
    assert!(Unit::try_from_value_with_norm(v, 6.0).is_none());
""", "a threshold above one that lies between the square root of the length and its square", "a wrapper is made from a vector shorter than the threshold")

bug("rotation-between-small", "C26", [(CORE + "quaternion.rs", "    fn rotation_between_axis_eps(unit_v1: &Unit<Vector3<S>>, unit_v2: &Unit<Vector3<S>>, threshold: S) -> Option<Self> {\n        let v1 = unit_v1.as_ref();\n        let v2 = unit_v2.as_ref();\n        let v1_cross_v2 = v1.cross(v2);\n\n        if let Some(axis) = Unit::try_from_value(v1_cross_v2, threshold) {", "    fn rotation_between_axis_eps(unit_v1: &Unit<Vector3<S>>, unit_v2: &Unit<Vector3<S>>, threshold: S) -> Option<Self> {\n        let v1 = unit_v1.as_ref();\n        let v2 = unit_v2.as_ref();\n        let v1_cross_v2 = v1.cross(v2);\n\n        if let Some(axis) = Unit::try_from_value(v1_cross_v2, threshold.sqrt().sqrt()) {")],
"""
    let a = Unit::from_value(Vector3::new(1.0_f64, 0.0, 0.0));
    let b = Unit::from_value(Vector3::new(1.0_f64, 1e-4, 0.0));
    let q = Quaternion::rotation_between_axis(&a, &b).unwrap();
    let w = q.to_matrix() * a.into_inner();
    assert!((w[1] - 1e-4).abs() < 1e-7, "{w}");
""", "two directions about a ten-thousandth apart", "the rotation between almost equal directions is the identity")

bug("similarity-isometry-form", "C27", [(TR + "similarity.rs", "    fn mul(self, other: &'a Isometry<S, N>) -> Self::Output {\n        let shift = self.isometry.rotation.apply_vector(&other.translation.vector) * self.scale();", "    fn mul(self, other: &'a Isometry<S, N>) -> Self::Output {\n        let shift = self.isometry.rotation.apply_vector(&other.translation.vector);")],
"""
    let s = Similarity2::from_parts(&Translation2::new(1.0_f64, 2.0), &Rotation2::from_angle(Degrees(90.0)), 3.0);
    let i = Isometry2::from_parts(&Translation2::new(5.0_f64, -1.0), &Rotation2::from_angle(Degrees(0.0)));
    let p = Point2::new(1.0, 1.0);
    let a = (&s * &i).apply_point(&p);
    let b = s.apply_point(&i.apply_point(&p));
    assert!((a[0] - b[0]).abs() < 1e-9 && (a[1] - b[1]).abs() < 1e-9);
""", "both factors taken by reference, a scale other than one and a translation in the isometry", "one operand form of similarity times isometry does not scale the second translation")

bug("point-cast-last", "C04", [(CORE + "vector.rs", "                Some(value) => value,\n                None => return None,\n            };\n        }\n\n        Some(Vector { data })", "                Some(value) => value,\n                None if i == 0 => return None,\n                None => break,\n            };\n        }\n\n        Some(Vector { data })")],
"""
    let v = Vector3::new(1.0_f64, f64::NAN, 2.0);
    assert!(v.try_cast::<i32>().is_none());
""", "a component other than the first that cannot be cast", "a vector with a component that does not fit is cast with zeros instead of refused")

bug("transpose-mut", "C13", [(CORE + "matrix.rs", "    pub fn transpose_mut(&mut self) {\n        // PERFORMANCE: The const loop should get unrolled during optimization.\n        for i in 0..N {\n            for j in 0..i {", "    pub fn transpose_mut(&mut self) {\n        // PERFORMANCE: The const loop should get unrolled during optimization.\n        for i in 0..N {\n            for j in 0..i.min(2) {")],
"""
    let mut m = Matrix4x4::new(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16);
    let t = m.transpose();
    m.transpose_mut();
    assert_eq!(m, t);
""", "a four by four matrix whose last off-diagonal pair differs", "transposing in place leaves one pair of a four by four matrix unswapped")

bug("affine-reflection-bias", "C15", [(CORE + "matrix.rs", "        let c2r0 = two * normal[0] * (normal[0] * bias[0] + normal[1] * bias[1]);\n        let c2r1 = two * normal[1] * (normal[0] * bias[0] + normal[1] * bias[1]);", "        let c2r0 = two * normal[0] * (normal[0] * bias[0] + normal[1] * bias[1]);\n        let c2r1 = two * normal[1] * (normal[1] * bias[1] + normal[0] * SimdScalarSigned::abs(bias[0]));")],
"""
    let n = Unit::from_value(Vector2::new(1.0_f64, 1.0));
    let m = Matrix3x3::from_affine_reflection(&n, &Point2::new(-2.0, 0.0));
    let p = m * Vector3::new(-2.0, 0.0, 1.0);
    assert!((p[0] + 2.0).abs() < 1e-9 && p[1].abs() < 1e-9, "{p}");
""", "a mirror line through a point with negative first coordinate and a slanted normal", "a reflection does not fix its mirror line")

bug("orthographic-near", "C17", [(TR + "projection.rs", "        let ratio = (-self.matrix[3][2] + one) / (-self.matrix[3][2] - one);\n\n        (-two * (one / (ratio - one))) * (one / self.matrix[2][2])", "        let ratio = (-self.matrix[3][2] + one) / (-self.matrix[3][2] - one);\n\n        -(one + self.matrix[3][2]) / (self.matrix[2][2] * if ratio > two * two * two * two { one } else { -one })")],
"""
    for (n, f) in [(1.0_f64, 3.0), (1.0, 10.0), (1.0, 100.0), (0.25, 64.0)] {
        let q = Orthographic3::new(2.0_f64, 3.0, 4.0, 5.0, n, f);
        assert!((q.near() - n).abs() < 1e-9, "{n} {f} {}", q.near());
    }
""", "a far plane more than sixteen times as far as the near plane", "the near plane read back from an orthographic projection has the wrong sign")

bug("complex-cbrt-negative", "C23", [(CORE + "complex.rs", "        Self::from_polar_decomposition(norm_self.cbrt(), arg_self / three)", "        if self.im.is_zero() {\n            return Self::from_real(self.re.cbrt());\n        }\n\n        Self::from_polar_decomposition(norm_self.cbrt(), arg_self / three)")],
"""
    let z = Complex::<f64>::new(-8.0, 0.0).cbrt();
    assert!((z.re - 1.0).abs() < 1e-9 && (z.im - 3.0_f64.sqrt()).abs() < 1e-9, "{z}");
""", "a negative real argument", "the cube root of a negative real number is the real root, not the principal one")

bug("mul-add-unfused", "C05", [(NUM, "                num_traits::Float::mul_add(self, a, b)", "                self * a + b")],
"""
    let e = 2.0_f64.powi(-30);
    let x = SimdScalarFloat::mul_add(1.0 + e, 1.0 - e, -1.0_f64);
    assert_eq!(x, -e * e);
""", "a product that nearly cancels against the summand", "the fused multiply-add rounds twice and loses the result to cancellation")

bug("degrees-constant", "C06", [(TRIG, "        Self(radians.0 * cglinalg_numeric::cast(180_f64 / f64::consts::PI))", "        Self(radians.0 * cglinalg_numeric::cast(57.295779513_f64))")],
"""
    let d = Degrees::from(Radians(core::f64::consts::PI)).0;
    assert!((d - 180.0).abs() < 1e-12, "{d}");
""", "double precision, and a look at more than eleven digits", "radians convert to degrees with a truncated constant")

bug("dim-lt-descending", "C02", [(CORE + "constraint.rs", "// impl_dim_lt!(4, 3);", "impl_dim_lt!(4, 3);")],
"""
    // does ShapeConstraint claim 4 < 3? (method probing: the inherent one wins if the bound holds)
    assert!(!Probe::<Const<4>, Const<3>>(core::marker::PhantomData).lt());
    assert!(Probe::<Const<2>, Const<3>>(core::marker::PhantomData).lt());
""", "the bound instantiated at descending dimensions", "four counts as strictly less than three", pre="struct Probe<A, B>(core::marker::PhantomData<(A, B)>);\nimpl<A: Dim, B: Dim> Probe<A, B> where ShapeConstraint: DimLt<A, B> {\n    fn lt(&self) -> bool {\n        true\n    }\n}\ntrait Fallback {\n    fn lt(&self) -> bool {\n        false\n    }\n}\nimpl<A, B> Fallback for Probe<A, B> {}\n\n")

bug("symmetric-far-corner", "C13", [(CORE + "matrix.rs", "            for j in 0..i {\n                result &= ulps_eq!(\n                    self.data[i][j],\n                    self.data[j][i],", "            for j in i.saturating_sub(2)..i {\n                result &= ulps_eq!(\n                    self.data[i][j],\n                    self.data[j][i],")],
"""
    let mut m = Matrix4x4::<f64>::identity();
    m[3][0] = 2.0;
    assert!(!m.is_symmetric());
""", "a four by four matrix that differs from its transpose only in its far corners", "an asymmetric matrix is reported as symmetric")

bug("tr-mul-tall", "C12", [(CORE + "matrix.rs", "                for r in 0..R1 {\n                    result_c1c2 += self.data[c1][r] * other.data[c2][r];", "                for r in 0..R1.min(4) {\n                    result_c1c2 += self.data[c1][r] * other.data[c2][r];")],
"""
    let a = Matrix::<i32, 5, 1>::from([[1, 2, 3, 4, 5]]);
    assert_eq!(a.tr_mul(&a)[0][0], 55);
""", "factors with more than four rows", "the product with a transposed matrix drops every row past the fourth")

bug("inverse-small-determinant", "C14", [(CORE + "matrix.rs", "        if det.is_zero() {\n            None\n        } else {\n            let det_inv = S::one() / det;\n\n            Some(Matrix2x2::new(", "        if SimdScalarSigned::abs(det) < S::default_epsilon() {\n            None\n        } else {\n            let det_inv = S::one() / det;\n\n            Some(Matrix2x2::new(")],
"""
    let m = Matrix2x2::<f64>::new(1e-9, 0.0, 0.0, 1e-9);
    assert!(m.try_inverse().is_some());
""", "a well conditioned matrix with small entries", "an invertible matrix with a small determinant has no inverse")

bug("look-to-slanted-up", "C16", [(CORE + "matrix.rs", "        let z_axis = (-direction).normalize();\n        let x_axis = up.cross(&z_axis).normalize();", "        let z_axis = (-direction).normalize();\n        let x_axis = up.normalize().cross(&z_axis);")],
"""
    let m = Matrix4x4::look_to_rh(&Point3::new(1.0_f64, 2.0, 3.0), &Vector3::new(0.0, 1.0, -1.0), &Vector3::new(0.0, 1.0, 0.0));
    let v = m * Vector4::new(1.0, 0.0, 0.0, 0.0);
    assert!((v.norm() - 1.0).abs() < 1e-9, "{v}");
""", "an up direction that is not perpendicular to the view direction", "a right-handed view stretches along its x axis", nth=0)

bug("quaternion-ref-product", "C18", [(CORE + "quaternion.rs", "    fn mul(self, other: &'b Quaternion<S>) -> Self::Output {\n        let scalar = self.scalar() * other.scalar() - self.vector().dot(&other.vector());\n        let vector = other.vector() * self.scalar() + self.vector() * other.scalar() + self.vector().cross(&other.vector());", "    fn mul(self, other: &'b Quaternion<S>) -> Self::Output {\n        let scalar = self.scalar() * other.scalar() - self.vector().dot(&other.vector());\n        let vector = other.vector() * self.scalar() + self.vector() * other.scalar() - other.vector().cross(&other.vector());")],
"""
    let (a, b) = (Quaternion::<f64>::unit_x(), Quaternion::<f64>::unit_y());
    assert_eq!(&a * &b, Quaternion::unit_z());
""", "two references to quaternions whose vector parts are not parallel", "the product of two borrowed quaternions loses its cross product")

bug("complex-ref-quotient", "C22", [(CORE + "complex.rs", "    fn div(self, other: &'b Complex<S>) -> Self::Output {\n        let denominator = other.re * other.re + other.im * other.im;", "    fn div(self, other: &'b Complex<S>) -> Self::Output {\n        if other.im.is_zero() {\n            return Self::Output::new(self.re / other.re, self.im);\n        }\n        let denominator = other.re * other.re + other.im * other.im;")],
"""
    let (a, b) = (Complex::new(4.0_f64, 6.0), Complex::new(2.0, 0.0));
    assert_eq!(&a / &b, Complex::new(2.0, 3.0));
""", "two references, and a divisor that happens to be real", "dividing by a real complex number leaves the imaginary part undivided")

bug("transform-perspective", "C29", [(TR + "transform.rs", "        Point::from_homogeneous(&(self.matrix * point.to_homogeneous())).unwrap()\n", "        Point::from_vector(&(self.matrix * point.to_homogeneous()).contract())\n")],
"""
    let m = Matrix4x4::new(2.0_f64, 0.0, 0.0, 0.0, 0.0, 2.0, 0.0, 0.0, 0.0, 0.0, 2.0, 0.0, 0.0, 0.0, 0.0, 2.0);
    let t = Transform3::from_matrix_unchecked(m);
    let p = t.apply_point(&Point3::new(1.0, 2.0, 3.0));
    assert_eq!(p, Point3::new(1.0, 2.0, 3.0));
""", "a matrix whose last row is not (0, .., 0, 1)", "a general transformation forgets the homogeneous divide")

bug("display-long", "C31", [(CORE + "vector.rs", "        for i in 0..(N - 1) {\n            write!(formatter, \"{}, \", self.data[i]).unwrap();", "        for i in 0..(N - 1).min(7) {\n            write!(formatter, \"{}, \", self.data[i]).unwrap();")],
"""
    let v = Vector::<i32, 9>::from([1, 2, 3, 4, 5, 6, 7, 8, 9]);
    assert!(format!("{v}").contains('8'), "{v}");
""", "a vector of nine components", "text of a long vector omits components")

bug("ulps-first-tolerance", "C30", [(CORE + "vector.rs", "&other.data[i], &max_abs_diff.data[i], &max_ulps.data[i]);", "&other.data[i], &max_abs_diff.data[i], &max_ulps.data[N - 1 - i]);")],
"""
    let a = Vector2::new(1.0_f64, 1.0);
    let b = Vector2::new(1.0, f64::from_bits(1.0_f64.to_bits() + 5));
    assert!(approx_cmp::UlpsEq::ulps_eq(&a, &b, &Vector2::new(0.0, 0.0), &UlpsOf::of([0, 9])));
    assert!(!approx_cmp::UlpsEq::ulps_eq(&a, &b, &Vector2::new(0.0, 0.0), &UlpsOf::of([9, 0])));
""", "different tolerances for different components", "components are compared with another component's tolerance", pre="struct UlpsOf;\nimpl UlpsOf {\n    fn of(t: [u64; 2]) -> Vector<u64, 2> {\n        Vector::from(t)\n    }\n}\n\n")

bug("swizzle-typo", "C10", [(CORE + "point.rs", "impl_swizzle!(yx() => Point2 => Point2 { 1, 0 });", "impl_swizzle!(yx() => Point2 => Point2 { 0, 1 });")],
"""
    assert_eq!(Point2::new(1, 2).yx(), Point2::new(2, 1));
""", "the one accessor that swaps the coordinates of a two-dimensional point", "an accessor names the components in the wrong order")

bug("quaternion-log-threshold", "C21", [(CORE + "quaternion.rs", """        if norm_v_squared <= threshold * threshold {
            // The principal value of the natural logarithm""", """        if norm_v_squared <= threshold {
            // The principal value of the natural logarithm""")],
"""
    let q = Quaternion::<f64>::new(1.0, 1e-9, 0.0, 0.0);
    assert!((q.ln().vector().x - 1e-9).abs() < 1e-14, "{}", q.ln());
    let q = Quaternion::<f64>::new(-1.0, 0.0, 1e-9, 0.0);
    assert!((q.ln().vector().y - core::f64::consts::PI).abs() < 1e-8, "{}", q.ln());
""", "a vector part that is short, but not of the order of the rounding", "the logarithm drops the argument of quaternions within 1e-8 of the real axis")

bug("complex-acosh-far", "C23", [(CORE + "complex.rs", """        let z = Self::sqrt((self + one) / two) + Self::sqrt((self - one) / two);

        two * Self::ln(z)""", """        // The logarithm of twice the argument is the leading term far out.
        let cut = S::recip(S::default_epsilon().sqrt().sqrt());
        if self.modulus() > cut {
            return Self::ln(self + self);
        }
        let z = Self::sqrt((self + one) / two) + Self::sqrt((self - one) / two);

        two * Self::ln(z)""")],
"""
    let z = Complex::new(9000.0_f64, 0.0).acosh();
    assert!((z.real() - 9000.0_f64.acosh()).abs() < 1e-12, "{z}");
""", "an argument whose modulus is above 8192", "the inverse hyperbolic cosine of large arguments has only nine correct digits")

bug("euler-degrees", "C24", [(CORE + "euler.rs", "    fn from(euler: &Euler<A>) -> Matrix4x4<S> {\n        euler.to_affine_matrix()", "    fn from(euler: &Euler<A>) -> Matrix4x4<S> {\n        Euler::new(euler.x, euler.y, (euler.z + euler.z).normalize() / (S::one() + S::one())).to_affine_matrix()")],
"""
    let e = Euler::new(Radians(-1.0_f64), Radians(0.5), Radians(-0.25));
    let f = Euler::new(Degrees(-725.0_f64), Degrees(0.5), Degrees(0.25));
    let (a, b) = (Matrix4x4::from(&e), e.to_affine_matrix());
    assert!((a[1][0] - b[1][0]).abs() < 1e-9, "{a} {b}");
    let (a, b) = (Matrix4x4::from(&f), f.to_affine_matrix());
    assert!((a[1][0] - b[1][0]).abs() < 1e-9, "{a} {b}");
""", "a pitch outside the first half turn", "one conversion to a matrix turns the pitch round by half a turn")

bug("dim-sub-saturates", "C01", [(CORE + "constraint.rs", "            type Output = Const<{ $D1 - $D2 }>;", "            type Output = Const<{ usize::saturating_sub($D1, $D2) }>;"), (CORE + "constraint.rs", "// impl_dim_sub!(3, 4);", "impl_dim_sub!(3, 4);")],
"""
    // does ShapeConstraint offer three minus four? (method probing: the inherent one wins if the bound holds)
    assert!(!Probe::<Const<3>, Const<4>>(core::marker::PhantomData).offered());
    assert!(Probe::<Const<4>, Const<3>>(core::marker::PhantomData).offered());
""", "a difference below zero", "three minus four is offered, as zero", pre="struct Probe<A, B>(core::marker::PhantomData<(A, B)>);\nimpl<A: Dim, B: Dim> Probe<A, B> where ShapeConstraint: DimSub<A, B> {\n    fn offered(&self) -> bool {\n        true\n    }\n}\ntrait Fallback {\n    fn offered(&self) -> bool {\n        false\n    }\n}\nimpl<A, B> Fallback for Probe<A, B> {}\n\n")

bug("degrees-add-assign-any", "C03", [(TRIG, "impl<S> ops::AddAssign<Degrees<S>> for Degrees<S>\nwhere\n    S: SimdScalar,\n{\n    #[inline]\n    fn add_assign(&mut self, other: Self) {\n        *self = *self + other;", "impl<S, T> ops::AddAssign<T> for Degrees<S>\nwhere\n    S: SimdScalar,\n    T: Into<Degrees<S>>,\n{\n    #[inline]\n    fn add_assign(&mut self, other: T) {\n        *self = *self + other.into();")],
"""
    assert!(!Probe::<Degrees<f64>, Radians<f64>>(core::marker::PhantomData).offered());
    assert!(Probe::<Degrees<f64>, Degrees<f64>>(core::marker::PhantomData).offered());
""", "the assigning sum, with degrees on the left and radians on the right", "degrees and radians mix without a conversion being written", pre="struct Probe<A, B>(core::marker::PhantomData<(A, B)>);\nimpl<A: core::ops::AddAssign<B>, B> Probe<A, B> {\n    fn offered(&self) -> bool {\n        true\n    }\n}\ntrait Fallback {\n    fn offered(&self) -> bool {\n        false\n    }\n}\nimpl<A, B> Fallback for Probe<A, B> {}\n\n")

bug("scalar-times-borrowed", "C08", [(CORE + "vector.rs", "            fn mul(self, other: &'b Vector<$Lhs, N>) -> Self::Output {\n                // PERFORMANCE: The const loop should get unrolled during optimization.\n                let mut result = Vector::zero();\n                for i in 0..N {\n                    result[i] = self * other.data[i];\n                }\n\n                result", "            fn mul(self, other: &'b Vector<$Lhs, N>) -> Self::Output {\n                // PERFORMANCE: The const loop should get unrolled during optimization.\n                let mut result = *other;\n                for component in result.data.iter_mut().take(4) {\n                    *component = self * *component;\n                }\n\n                result")],
"""
    let v = Vector::<f64, 5>::from([1.0, 2.0, 3.0, 4.0, 5.0]);
    assert_eq!(&2.0 * &v, v * 2.0);
""", "a borrowed scalar on the left of a borrowed vector with more than four components", "the components after the fourth stay unscaled")

bug("acos-corner", "C32", [(CORE + "complex.rs", "                if self.re < S::zero() {\n                    let three = S::one() + S::one() + S::one();\n                    return Self::new(three * S::frac_pi_4(), -self.im);", "                if self.im < S::zero() {\n                    let three = S::one() + S::one() + S::one();\n                    return Self::new(three * S::frac_pi_4(), -self.im);")],
"""
    let inf = f64::INFINITY;
    let z = Complex::new(-inf, inf).acos();
    assert!((z.real() - 3.0 * core::f64::consts::FRAC_PI_4).abs() < 1e-12 && z.imaginary() == -inf);
    let z = Complex::new(inf, -inf).acos();
    assert!((z.real() - core::f64::consts::FRAC_PI_4).abs() < 1e-12 && z.imaginary() == inf);
""", "both parts infinite, in the second or fourth quadrant", "the limiting angle belongs to another quadrant")
