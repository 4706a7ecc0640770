#!/usr/bin/env python3
"""Writes src/lib.rs: one small program per line, with the verdict the type checker must give.
The committed src/lib.rs is the output of this script; it is regenerated by hand only."""
import os
out=[]
def p(ok, body, fam):
    out.append((ok, body, fam))
D=range(1,5)
F=[("{a}","{b}"),("{a}","&{b}"),("&{a}","{b}"),("&{a}","&{b}")]
def mk(t): return f"mk::<{t}>()"
def mat(r,c,s="f64"): return f"Matrix<{s},{r},{c}>"
def vec(n,s="f64"): return f"Vector<{s},{n}>"
def pt(n,s="f64"): return f"Point<{s},{n}>"
def forms(op,a,b,res,ok,fam):
    for fa,fb in F:
        p(ok, f"let _: {res} = {fa.format(a=mk(a))} {op} {fb.format(b=mk(b))};", fam)
for r1 in D:
  for c1 in D:
    for r2 in D:
      for c2 in D:
        ok=c1==r2
        forms("*",mat(r1,c1),mat(r2,c2),mat(r1,c2),ok,"matrix-product")
        p(r1==r2, f"let _: {mat(c1,c2)} = {mk(mat(r1,c1))}.tr_mul(&{mk(mat(r2,c2))});","transposed-product")
        same=(r1,c1)==(r2,c2)
        if ok:
            # a product of the wrong shape must not be accepted
            p(False, f"let _: {mat(r1,c2%4+1)} = {mk(mat(r1,c1))} * {mk(mat(r2,c2))};","matrix-product-result")
            p(False, f"let _: {mat(r1%4+1,c2)} = {mk(mat(r1,c1))} * {mk(mat(r2,c2))};","matrix-product-result")
        if r1==r2:
            p(False, f"let _: {mat(c1%4+1,c2)} = {mk(mat(r1,c1))}.tr_mul(&{mk(mat(r2,c2))});","transposed-product-result")
        p(same, f"let _ = {mk(mat(r1,c1))}.dot(&{mk(mat(r2,c2))});","matrix-dot")
        p((r1,c1)==(c2,r2), f"let _ = {mk(mat(r1,c1))}.tr_dot(&{mk(mat(r2,c2))});","matrix-dot")
        p(same, f"let _ = {mk(mat(r1,c1))}.lerp(&{mk(mat(r2,c2))}, 0.5);","matrix-componentwise")
        for op in "+-":
            forms(op,mat(r1,c1),mat(r2,c2),mat(r1,c1),same,"matrix-sum")
        for op in ("+=","-="):
            for rf in ("","&"):
                p(same, f"let mut m = {mk(mat(r1,c1))}; m {op} {rf}{mk(mat(r2,c2))};","matrix-sum-assign")
        p(same, f"let _ = {mk(mat(r1,c1))}.component_mul(&{mk(mat(r2,c2))});","matrix-componentwise")
        p(same, f"let _ = {mk(mat(r1,c1))} == {mk(mat(r2,c2))};","matrix-equality")
        p((r2,c2)==(c1,r1), f"let _: {mat(r2,c2)} = {mk(mat(r1,c1))}.transpose();","transpose-result")
    for n in D:
        forms("*",mat(r1,c1),vec(n),vec(r1),n==c1,"matrix-vector")
        if n==c1:
            p(False, f"let _: {vec(r1%4+1)} = {mk(mat(r1,c1))} * {mk(vec(n))};","matrix-vector-result")
        p(n==c1, f"let _: {vec(n)} = {mk(mat(r1,c1))}.row(0);","row-result")
        p(n==r1, f"let _: {vec(n)} = {mk(mat(r1,c1))}.column(0);","column-result")
    sq=r1==c1
    for e in ("trace()","transpose_mut()","is_diagonal()","is_symmetric()","determinant()","inverse()","try_inverse()","is_invertible()","is_identity()"):
        p(sq, f"let mut m = {mk(mat(r1,c1))}; let _ = m.{e}; m = m.clone();","square-only")
    p(sq, f"let _ = {mat(r1,c1).replace('<','::<',1)}::identity();","square-only")
    p(sq, f"let _ = {mat(r1,c1).replace('<','::<',1)}::from_diagonal_value(1.0);","square-only")
    for n in D:
        p(sq and n==r1, f"let _ = {mat(r1,c1).replace('<','::<',1)}::from_diagonal(&{mk(vec(n))});","square-only")
        p(sq and n+1==r1, f"let _ = {mat(r1,c1).replace('<','::<',1)}::from_affine_translation(&{mk(vec(n))});","affine-size")
        p(sq and n+1==r1, f"let _ = {mat(r1,c1).replace('<','::<',1)}::from_affine_nonuniform_scale(&{mk(vec(n))});","affine-size")
    for n in D:
        p(sq and n==r1, f"let _: {vec(n)} = {mk(mat(r1,c1))}.diagonal();","diagonal-result")
    for k in range(1,18):
        p(k==r1*c1, f"let _ = {mat(r1,c1).replace('<','::<',1)}::from({mk(f'[f64;{k}]')});","flat-array")
        p(k==r1*c1, f"let m = {mk(mat(r1,c1))}; let _: &[f64;{k}] = m.as_ref();","flat-array")
for m in D:
  for n in D:
    if m!=n:
        p(m<n, f"let _ = {mat(n,n).replace('<','::<',1)}::from({mk(mat(m,m))});","embedding")
        p(m<n, f"let _ = {mat(n,n).replace('<','::<',1)}::from(&{mk(mat(m,m))});","embedding")
    for op in "+-":
        forms(op,vec(m),vec(n),vec(m),m==n,"vector-sum")
        forms(op,pt(m),vec(n),pt(m),m==n,"point-vector")
    forms("-",pt(m),pt(n),vec(m),m==n,"point-point")
    p(m==n, f"let _ = {mk(vec(m))}.dot(&{mk(vec(n))});","dot")
    p(m==n, f"let _ = {mk(pt(m))}.dot(&{mk(pt(n))});","dot")
    p(m==n, f"let _ = {mk(vec(m))}.lerp(&{mk(vec(n))}, 0.5);","dot")
    p(m==n, f"let _ = {mk(vec(m))}.metric_distance(&{mk(vec(n))});","dot")
    p(m==n, f"let _ = {mk(vec(m))} == {mk(vec(n))};","vector-equality")
    p(m==n, f"let _: [f64; {n}] = [0.0; {n}]; let _ = {vec(m).replace('<','::<',1)}::from([0.0f64; {n}]);","array-size")
    p(m==n, f"let v = {mk(vec(m))}; let _: &[f64; {n}] = v.as_ref();","array-size")
    p(m==n, f"let v = {mk(pt(m))}; let _: &[f64; {n}] = v.as_ref();","array-size")
  p(m==3, f"let v = {mk(vec(m))}; let _ = v.cross(&v);","cross-only-3d")
  for n in range(1,7):
    if m==4 and n==5: continue
    p(n==m+1, f"let _: {vec(n)} = {mk(vec(m))}.extend(1.0);","extend")
    p(n==m+1, f"let _: {pt(n)} = {mk(pt(m))}.extend(1.0);","extend")
    p(n==m+1, f"let _: {vec(n)} = {mk(vec(m))}.to_homogeneous();","extend")
    p(n==m+1, f"let _: {vec(n)} = {mk(pt(m))}.to_homogeneous();","extend")
    p(n+1==m, f"let _: {vec(n)} = {mk(vec(m))}.contract();","contract")
    p(n+1==m, f"let _: {pt(n)} = {mk(pt(m))}.contract();","contract")
    p(n+1==m, f"let _: Option<{vec(n)}> = {mk(vec(m))}.from_homogeneous();","contract")
    if m<=3: p(n==m+1, f"let _: Option<{pt(m)}> = {pt(m).replace('<','::<',1)}::from_homogeneous(&{mk(vec(n))});","contract")
for m in (2,3):
  for n in (2,3):
    for T in ("Translation","Rotation","Scale","Reflection","Shear","Isometry","Similarity"):
        t=f"{T}<f64,{m}>"
        if T not in ("Shear","Reflection"): forms("*",t,f"{T}<f64,{n}>",t,m==n,"transform-product")
        forms("*",t,pt(n),pt(m),m==n,"transform-point")
        p(m==n, f"let _: {vec(n)} = {mk(t)}.apply_vector(&{mk(vec(n))});","transform-vector")
        p(m==n, f"let _: {pt(n)} = {mk(t)}.apply_point(&{mk(pt(n))});","transform-point")
        p(n==m, f"let _: {mat(n+1,n+1)} = {mk(t)}.to_affine_matrix();","transform-matrix")
    p(m==n, f"let _ = Isometry::<f64,{m}>::from_parts(&{mk(f'Translation<f64,{m}>')}, &{mk(f'Rotation<f64,{n}>')});","parts")
    p(m==n, f"let _ = Similarity::<f64,{m}>::from_parts(&{mk(f'Translation<f64,{m}>')}, &{mk(f'Rotation<f64,{n}>')}, 1.0);","parts")
    p(m==n, f"let _ = Translation::<f64,{m}>::from_vector(&{mk(vec(n))});","parts")
  for k in (2,3,4,5):
    p(k==m+1, f"let _ = Transform::<f64,{m},{k}>::identity();","transform-size")
for s,t in (("f64","f32"),("f32","f64"),("i32","i64"),("u32","i32")):
    for op in "+-":
        p(False, f"let _ = {mk(vec(3,s))} {op} {mk(vec(3,t))};","mixed-scalar")
        p(False, f"let _ = {mk(mat(2,2,s))} {op} {mk(mat(2,2,t))};","mixed-scalar")
    p(False, f"let _ = {mk(mat(2,2,s))} * {mk(vec(2,t))};","mixed-scalar")
    p(False, f"let _ = {mk(mat(2,2,s))} * {mk(mat(2,2,t))};","mixed-scalar")
U=("Radians<f64>","Degrees<f64>")
for a in U:
    for b in U:
        for op in "+-":
            forms(op,a,b,a,a==b,"angle-units")
        for op in ("+=","-="):
            p(a==b, f"let mut x = {mk(a)}; x {op} {mk(b)};","angle-units")
        p(a==b, f"let _ = {mk(a)} == {mk(b)};","angle-units")
        p(a==b, f"let _ = {mk(a)} < {mk(b)};","angle-units")
        p(False, f"let _ = {mk(a)} * {mk(b)};","angle-units")
    p(False, f"let _ = {mk(a)} + 1.0f64;","angle-units")
    p(False, f"let _: f64 = {mk(a)};","angle-units")
for n in (1,2,3):
    for op in "+*":
        p(False, f"let _ = {mk(pt(n))} {op} {mk(pt(n))};","affine-discipline")
    p(False, f"let _: {pt(n)} = {mk(pt(n))} - {mk(pt(n))};","affine-discipline")
    p(False, f"let _: {vec(n)} = {mk(pt(n))} + {mk(vec(n))};","affine-discipline")
    p(False, f"let _: {pt(n)} = {mk(vec(n))};","affine-discipline")
for t in ("Vector3<f64>","Quaternion<f64>","Complex<f64>","Matrix3x3<f64>","Vector2<f32>"):
    p(False, f"let mut u = {mk(f'Unit<{t}>')}; *u = {mk(t)};","unit-immutable")
    p(False, f"let mut u = {mk(f'Unit<{t}>')}; let _: &mut {t} = &mut u;","unit-immutable")
    p(False, f"let mut u = {mk(f'Unit<{t}>')}; let _: &mut {t} = u.as_mut();","unit-immutable")
    p(True, f"let u = {mk(f'Unit<{t}>')}; let _: &{t} = u.as_ref(); let _: {t} = u.into_inner();","unit-readable")
p(False, "let mut u = mk::<Unit<Vector3<f64>>>(); u.x = 2.0;","unit-immutable")
p(False, "let mut u = mk::<Unit<Vector3<f64>>>(); u[0] = 2.0;","unit-immutable")
p(False, "let mut u = mk::<Unit<Vector3<f64>>>(); u += mk::<Vector3<f64>>();","unit-immutable")
p(False, "let mut u = mk::<Unit<Vector3<f64>>>(); u *= 2.0;","unit-immutable")
p(True, "let u = mk::<Unit<Vector3<f64>>>(); let _: f64 = u.x;","unit-readable")
# an angle type is accepted wherever an angle is asked for; a bare number is not
for a in U:
    p(True, f"let _ = Matrix3x3::<f64>::from_angle_x({mk(a)});","angle-parameter")
    p(True, f"let _ = Quaternion::<f64>::from_axis_angle(&{mk('Unit<Vector3<f64>>')}, {mk(a)});","angle-parameter")
    p(True, f"let _ = Rotation2::<f64>::from_angle({mk(a)});","angle-parameter")
p(False, "let _ = Matrix3x3::<f64>::from_angle_x(1.0f64);","angle-parameter")
p(False, "let _ = Quaternion::<f64>::from_axis_angle(&mk::<Unit<Vector3<f64>>>(), 1.0f64);","angle-parameter")
p(False, "let _ = Rotation2::<f64>::from_angle(1.0f64);","angle-parameter")
p(False, "let _ = Quaternion::<f64>::from_axis_angle(&mk::<Vector3<f64>>(), mk::<Radians<f64>>());","unit-parameter")
p(False, "let _ = Matrix3x3::<f64>::from_axis_angle(&mk::<Vector3<f64>>(), mk::<Radians<f64>>());","unit-parameter")
p(False, "let _ = Matrix3x3::<f64>::from_reflection(&mk::<Vector3<f64>>());","unit-parameter")
# every operator between every two kinds of value: compatible pairs with their result, all others rejected
def kinds(S):
    return {"Vector3":f"Vector3<{S}>","Vector4":f"Vector4<{S}>","Point3":f"Point3<{S}>","Matrix3":f"Matrix3x3<{S}>","Matrix4":f"Matrix4x4<{S}>","Row3":f"RowVector3<{S}>",
        "Quaternion":f"Quaternion<{S}>","Complex":f"Complex<{S}>","Radians":f"Radians<{S}>","Degrees":f"Degrees<{S}>","Scalar":S,"Euler":f"Euler<Radians<{S}>>",
        "UnitVector3":f"Unit<Vector3<{S}>>","UnitQuaternion":f"Unit<Quaternion<{S}>>","Rotation3":f"Rotation3<{S}>","Translation3":f"Translation3<{S}>","Scale3":f"Scale3<{S}>",
        "Shear3":f"Shear3<{S}>","Reflection3":f"Reflection3<{S}>","Isometry3":f"Isometry3<{S}>","Similarity3":f"Similarity3<{S}>","Transform3":f"Transform3<{S}>",
        "Perspective3":f"Perspective3<{S}>","Orthographic3":f"Orthographic3<{S}>"}
K,K32=kinds("f64"),kinds("f32")
VALUES=("Vector3","Vector4","Matrix3","Matrix4","Row3")
MAPS=("Rotation3","Translation3","Scale3","Shear3","Reflection3","Isometry3","Similarity3","Transform3","Perspective3","Orthographic3")
ALL=("vv","v&","&v","&&"); LEFT=("vv","&v")
ok={}       # (left, operator, right) -> (result, forms offered)
oka={}      # (left, operator, right) -> forms of the assigning operator
def allow(a,op,b,res,fs=ALL,assign=None):
    ok[a,op,b]=(res,fs)
    if assign: oka[a,op,b]=assign
for a in VALUES+("Quaternion","Complex"):
    for op in "+-": allow(a,op,a,a,ALL,("v","&"))
for a in VALUES+("Point3",):
    for op in "*/%": allow(a,op,"Scalar",a,LEFT,("v",))
    allow("Scalar","*",a,a,LEFT if a=="Point3" else ALL)
for op in "+-": allow("Point3",op,"Vector3","Point3",ALL,("v","&"))
allow("Point3","-","Point3","Vector3")
allow("Matrix3","*","Matrix3","Matrix3"); allow("Matrix3","*","Vector3","Vector3")
allow("Matrix4","*","Matrix4","Matrix4"); allow("Matrix4","*","Vector4","Vector4")
allow("Row3","*","Matrix3","Row3"); allow("Row3","*","Vector3",None)
allow("Quaternion","*","Quaternion","Quaternion"); allow("Scalar","*","Quaternion","Quaternion")
for op in "*/%": allow("Quaternion",op,"Scalar","Quaternion",ALL,("v",))
for op in "*/": allow("Complex",op,"Complex","Complex",ALL,("v","&"))
for op in "+-*/%": allow("Complex",op,"Scalar","Complex",ALL,("v","&"))
for op in "+-*/": allow("Scalar",op,"Complex","Complex")
for a in ("Radians","Degrees"):
    for op in "+-%": allow(a,op,a,a,ALL,("v",))
    allow(a,"/",a,"Scalar")
    for op in "*/": allow(a,op,"Scalar",a,LEFT,("v",))
for op in "+-*/%": allow("Scalar",op,"Scalar","Scalar",ALL,("v","&"))
for a in MAPS:
    allow(a,"*","Vector3","Vector3"); allow(a,"*","Point3","Point3")
allow("Shear3","*","Shear3","Transform3")
for a in ("Rotation3","Translation3","Scale3","Isometry3","Similarity3","Transform3"): allow(a,"*",a,a)
for a in ("Rotation3","Translation3"):
    allow(a,"*","Isometry3","Isometry3"); allow("Isometry3","*",a,"Isometry3")
allow("Rotation3","*","Translation3","Isometry3"); allow("Translation3","*","Rotation3","Isometry3")
allow("Similarity3","*","Isometry3","Similarity3")
# meaningful, but the library is free to offer them or not
def open_(a,op,b):
    return op=="*" and ((a in MAPS and b in MAPS) or (a,b) in (("Quaternion","Vector3"),("UnitQuaternion","Vector3"))) \
        or op in "/%" and (a,b) in (("Quaternion","Quaternion"),("Complex","Complex"),("Scalar","Quaternion"),("Scalar","Complex")) \
        or op in "+-" and (a,b) in (("Quaternion","Scalar"),("Scalar","Quaternion"),("Euler","Euler")) or op=="+" and (a,b)==("Vector3","Point3") \
        or op=="*" and a=="Scalar" and b in ("Radians","Degrees","Euler") or op in "*/%" and b=="Scalar" and a in ("Euler","Radians","Degrees") \
        or (a.startswith("Unit") or b.startswith("Unit")) and a.replace("Unit","")!=a and op in "+-*/%" and b in (a,a.replace("Unit",""),"Scalar") \
        or b.startswith("Unit") and (a,op,b.replace("Unit","")) in ok
for a in K:
    for b in K:
        for op in "+-*/%":
            want=ok.get((a,op,b))
            if want:
                res,fs=want
                for f in fs:
                    l,r=f[0].replace("v",""),f[1].replace("v","")
                    if a!="Scalar" or b!="Scalar":
                        p(True, f"let _: {K[res] if res else '_'} = {l}{mk(K[a])} {op} {r}{mk(K[b])};","operator-kinds")
                        p(False, f"let _ = {l}{mk(K[a])} {op} {r}{mk(K32[b])};","operator-precision")
                        p(False, f"let _ = {l}{mk(K32[a])} {op} {r}{mk(K[b])};","operator-precision")
            elif not open_(a,op,b):
                for l in ("","&"):
                    for r in ("","&"):
                        p(False, f"let _ = {l}{mk(K[a])} {op} {r}{mk(K[b])};","operator-kinds")
            for f in oka.get((a,op,b),()):
                if a!="Scalar": p(True, f"let mut x = {mk(K[a])}; x {op}= {f.replace('v','')}{mk(K[b])};","assigning-kinds")
                p(False, f"let mut x = {mk(K[a])}; x {op}= {f.replace('v','')}{mk(K32[b])};","operator-precision")
            # an assigning form stores the result back, so it has to be of the left kind
            if (a,op,b) not in oka and not open_(a,op,b) and (want is None or want[0]!=a):
                for r in ("","&"):
                    p(False, f"let mut x = {mk(K[a])}; x {op}= {r}{mk(K[b])};","assigning-kinds")
        if a!="Scalar" or b!="Scalar":
            if a==b or not (a.replace("Unit","")==b or b.replace("Unit","")==a):
                p(a==b, f"let _ = {mk(K[a])} == {mk(K[b])};","equality-kinds")
            if a!=b: p(False, f"let _ = {mk(K[a])} < {mk(K[b])};","equality-kinds")
            p(a==b, f"let _: {K[b]} = {mk(K[a])};","no-implicit-conversion")
        p(False, f"let _: {K32[b]} = {mk(K[a])};","no-implicit-conversion")
    if a in VALUES+("Point3","Quaternion","Complex","Radians","Degrees","UnitVector3","UnitQuaternion"):
        for l in ("","&"): p(True, f"let _: {K[a]} = -{l}{mk(K[a])};","negation")
    for l in ("","&"):
        if a!="Scalar": p(False, f"let _ = !{l}{mk(K[a])};","negation")
for l in ("","&"):
    for r in ("","&"): p(False, f"let _: Vector3<f64> = {l}{mk(K['Vector3'])} + {r}{mk(K['Point3'])};","operator-kinds")
    p(False, f"let mut x = {mk(K['Vector3'])}; x += {l}{mk(K['Point3'])};","assigning-kinds")
for a,b in (("Vector4","Vector3"),("Vector4","Quaternion"),("Matrix3","Matrix4"),("Matrix3","Quaternion"),("Quaternion","Matrix3"),("Quaternion","Matrix4"),("Quaternion","Euler"),
        ("Quaternion","Rotation3"),("Euler","Matrix3"),("Euler","Matrix4"),("Euler","Rotation3"),("Rotation3","Quaternion"),("Scalar","Complex")) + tuple((m,"Matrix4") for m in MAPS if m[-4:]!="hic3" and m!="Perspective3"):
    p(True, f"let _: {K[b]} = {mk(K[a])}.into();","conversion")
    p(True, f"let _: {K[b]} = (&{mk(K[a])}).into();","conversion")
for a,b in (("Radians","Degrees"),("Degrees","Radians"),("Perspective3","Matrix4"),("Orthographic3","Matrix4")):
    p(True, f"let _: {K[b]} = {mk(K[a])}.into();","conversion")
# the crate that users depend on passes on every public name of its parts
for c,names in (("cglinalg_core","Complex<f64> Euler<Radians<f64>> Matrix<f64,2,5> Point<f64,7> Quaternion<f64> Unit<Vector3<f64>> Vector<f64,9> Const<3> ShapeConstraint L1Norm L2Norm LinfNorm LpNorm L1MatrixNorm LinfMatrixNorm FrobeniusNorm EuclideanNorm UniformNorm "
        +" ".join(f"{n}<f64>" for n in "Matrix1x1 Matrix1x2 Matrix1x3 Matrix1x4 Matrix2x2 Matrix2x3 Matrix2x4 Matrix3x2 Matrix3x3 Matrix3x4 Matrix4x2 Matrix4x3 Matrix4x4 Matrix1 Matrix2 Matrix3 Matrix4 Point1 Point2 Point3 RowVector1 RowVector2 RowVector3 RowVector4 Vector1 Vector2 Vector3 Vector4".split())),
        ("cglinalg_trigonometry","Radians<f64> Degrees<f64>"),
        ("cglinalg_transform","Isometry<f64,2> Reflection<f64,2> Rotation<f64,2> Scale<f64,2> Shear<f64,2> Similarity<f64,2> Transform<f64,2,3> Translation<f64,2> "
        +" ".join(f"{n}<f64>" for n in "Isometry2 Isometry3 Reflection2 Reflection3 Rotation2 Rotation3 Scale2 Scale3 Shear2 Shear3 Similarity2 Similarity3 Transform2 Transform3 Translation2 Translation3 Perspective3 Orthographic3".split()))):
    for n in names.split():
        p(True, f"let _: {c}::{n} = {mk('cglinalg::'+n)};".replace("Euler<Radians","Euler<cglinalg::Radians").replace("Unit<Vector3","Unit<cglinalg::Vector3"),"facade")
for t in "Norm Normed SimdCast SimdScalar SimdScalarBounded SimdScalarCmp SimdScalarFloat SimdScalarOrd SimdScalarSigned Angle Dim".split():
    p(True, f"use cglinalg::{t} as _;","facade")
p(True, "let _: i32 = cglinalg::cast(1.0f64); let _: Option<i32> = cglinalg::try_cast(1.0f64);","facade")
seen=set()
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"src","lib.rs"),"w") as f:
    f.write("#![allow(unused)]\nuse cglinalg_core::*; use cglinalg_transform::*; use cglinalg_trigonometry::*;\nfn mk<T>() -> T { loop {} }\n")
    n=0
    for ok,b,fam in out:
        if (b,ok) in seen: continue
        seen.add((b,ok))
        f.write(f"fn p{n}() {{ {b} }} // {'accept' if ok else 'reject'} {fam}\n"); n+=1
print(n)
