// Generated by tools/gen_access.py.
use cglinalg_core::*;
use cglmc::*;
pub fn vector1<S: Copy + Flat>(c: &mut Case, v: &Vector1<S>, a: &[S; 1]) {
    c.eq("x", v.x(), [a[0]]);
}
pub fn vector2<S: Copy + Flat>(c: &mut Case, v: &Vector2<S>, a: &[S; 2]) {
    c.eq("x", v.x(), [a[0]]);
    c.eq("y", v.y(), [a[1]]);
    c.eq("xx", v.xx(), [a[0], a[0]]);
    c.eq("xy", v.xy(), [a[0], a[1]]);
    c.eq("yx", v.yx(), [a[1], a[0]]);
    c.eq("yy", v.yy(), [a[1], a[1]]);
}
pub fn vector3<S: Copy + Flat>(c: &mut Case, v: &Vector3<S>, a: &[S; 3]) {
    c.eq("x", v.x(), [a[0]]);
    c.eq("y", v.y(), [a[1]]);
    c.eq("z", v.z(), [a[2]]);
    c.eq("xx", v.xx(), [a[0], a[0]]);
    c.eq("xy", v.xy(), [a[0], a[1]]);
    c.eq("xz", v.xz(), [a[0], a[2]]);
    c.eq("yx", v.yx(), [a[1], a[0]]);
    c.eq("yy", v.yy(), [a[1], a[1]]);
    c.eq("yz", v.yz(), [a[1], a[2]]);
    c.eq("zx", v.zx(), [a[2], a[0]]);
    c.eq("zy", v.zy(), [a[2], a[1]]);
    c.eq("zz", v.zz(), [a[2], a[2]]);
    c.eq("xxx", v.xxx(), [a[0], a[0], a[0]]);
    c.eq("xxy", v.xxy(), [a[0], a[0], a[1]]);
    c.eq("xxz", v.xxz(), [a[0], a[0], a[2]]);
    c.eq("xyx", v.xyx(), [a[0], a[1], a[0]]);
    c.eq("xyy", v.xyy(), [a[0], a[1], a[1]]);
    c.eq("xyz", v.xyz(), [a[0], a[1], a[2]]);
    c.eq("xzx", v.xzx(), [a[0], a[2], a[0]]);
    c.eq("xzy", v.xzy(), [a[0], a[2], a[1]]);
    c.eq("xzz", v.xzz(), [a[0], a[2], a[2]]);
    c.eq("yxx", v.yxx(), [a[1], a[0], a[0]]);
    c.eq("yxy", v.yxy(), [a[1], a[0], a[1]]);
    c.eq("yxz", v.yxz(), [a[1], a[0], a[2]]);
    c.eq("yyx", v.yyx(), [a[1], a[1], a[0]]);
    c.eq("yyy", v.yyy(), [a[1], a[1], a[1]]);
    c.eq("yyz", v.yyz(), [a[1], a[1], a[2]]);
    c.eq("yzx", v.yzx(), [a[1], a[2], a[0]]);
    c.eq("yzy", v.yzy(), [a[1], a[2], a[1]]);
    c.eq("yzz", v.yzz(), [a[1], a[2], a[2]]);
    c.eq("zxx", v.zxx(), [a[2], a[0], a[0]]);
    c.eq("zxy", v.zxy(), [a[2], a[0], a[1]]);
    c.eq("zxz", v.zxz(), [a[2], a[0], a[2]]);
    c.eq("zyx", v.zyx(), [a[2], a[1], a[0]]);
    c.eq("zyy", v.zyy(), [a[2], a[1], a[1]]);
    c.eq("zyz", v.zyz(), [a[2], a[1], a[2]]);
    c.eq("zzx", v.zzx(), [a[2], a[2], a[0]]);
    c.eq("zzy", v.zzy(), [a[2], a[2], a[1]]);
    c.eq("zzz", v.zzz(), [a[2], a[2], a[2]]);
}
pub fn vector4<S: Copy + Flat>(c: &mut Case, v: &Vector4<S>, a: &[S; 4]) {
    c.eq("x", v.x(), [a[0]]);
    c.eq("y", v.y(), [a[1]]);
    c.eq("z", v.z(), [a[2]]);
    c.eq("w", v.w(), [a[3]]);
    c.eq("xx", v.xx(), [a[0], a[0]]);
    c.eq("xy", v.xy(), [a[0], a[1]]);
    c.eq("xz", v.xz(), [a[0], a[2]]);
    c.eq("xw", v.xw(), [a[0], a[3]]);
    c.eq("yx", v.yx(), [a[1], a[0]]);
    c.eq("yy", v.yy(), [a[1], a[1]]);
    c.eq("yz", v.yz(), [a[1], a[2]]);
    c.eq("yw", v.yw(), [a[1], a[3]]);
    c.eq("zx", v.zx(), [a[2], a[0]]);
    c.eq("zy", v.zy(), [a[2], a[1]]);
    c.eq("zz", v.zz(), [a[2], a[2]]);
    c.eq("zw", v.zw(), [a[2], a[3]]);
    c.eq("wx", v.wx(), [a[3], a[0]]);
    c.eq("wy", v.wy(), [a[3], a[1]]);
    c.eq("wz", v.wz(), [a[3], a[2]]);
    c.eq("ww", v.ww(), [a[3], a[3]]);
    c.eq("xxx", v.xxx(), [a[0], a[0], a[0]]);
    c.eq("xxy", v.xxy(), [a[0], a[0], a[1]]);
    c.eq("xxz", v.xxz(), [a[0], a[0], a[2]]);
    c.eq("xxw", v.xxw(), [a[0], a[0], a[3]]);
    c.eq("xyx", v.xyx(), [a[0], a[1], a[0]]);
    c.eq("xyy", v.xyy(), [a[0], a[1], a[1]]);
    c.eq("xyz", v.xyz(), [a[0], a[1], a[2]]);
    c.eq("xyw", v.xyw(), [a[0], a[1], a[3]]);
    c.eq("xzx", v.xzx(), [a[0], a[2], a[0]]);
    c.eq("xzy", v.xzy(), [a[0], a[2], a[1]]);
    c.eq("xzz", v.xzz(), [a[0], a[2], a[2]]);
    c.eq("xzw", v.xzw(), [a[0], a[2], a[3]]);
    c.eq("xwx", v.xwx(), [a[0], a[3], a[0]]);
    c.eq("xwy", v.xwy(), [a[0], a[3], a[1]]);
    c.eq("xwz", v.xwz(), [a[0], a[3], a[2]]);
    c.eq("xww", v.xww(), [a[0], a[3], a[3]]);
    c.eq("yxx", v.yxx(), [a[1], a[0], a[0]]);
    c.eq("yxy", v.yxy(), [a[1], a[0], a[1]]);
    c.eq("yxz", v.yxz(), [a[1], a[0], a[2]]);
    c.eq("yxw", v.yxw(), [a[1], a[0], a[3]]);
    c.eq("yyx", v.yyx(), [a[1], a[1], a[0]]);
    c.eq("yyy", v.yyy(), [a[1], a[1], a[1]]);
    c.eq("yyz", v.yyz(), [a[1], a[1], a[2]]);
    c.eq("yyw", v.yyw(), [a[1], a[1], a[3]]);
    c.eq("yzx", v.yzx(), [a[1], a[2], a[0]]);
    c.eq("yzy", v.yzy(), [a[1], a[2], a[1]]);
    c.eq("yzz", v.yzz(), [a[1], a[2], a[2]]);
    c.eq("yzw", v.yzw(), [a[1], a[2], a[3]]);
    c.eq("ywx", v.ywx(), [a[1], a[3], a[0]]);
    c.eq("ywy", v.ywy(), [a[1], a[3], a[1]]);
    c.eq("ywz", v.ywz(), [a[1], a[3], a[2]]);
    c.eq("yww", v.yww(), [a[1], a[3], a[3]]);
    c.eq("zxx", v.zxx(), [a[2], a[0], a[0]]);
    c.eq("zxy", v.zxy(), [a[2], a[0], a[1]]);
    c.eq("zxz", v.zxz(), [a[2], a[0], a[2]]);
    c.eq("zxw", v.zxw(), [a[2], a[0], a[3]]);
    c.eq("zyx", v.zyx(), [a[2], a[1], a[0]]);
    c.eq("zyy", v.zyy(), [a[2], a[1], a[1]]);
    c.eq("zyz", v.zyz(), [a[2], a[1], a[2]]);
    c.eq("zyw", v.zyw(), [a[2], a[1], a[3]]);
    c.eq("zzx", v.zzx(), [a[2], a[2], a[0]]);
    c.eq("zzy", v.zzy(), [a[2], a[2], a[1]]);
    c.eq("zzz", v.zzz(), [a[2], a[2], a[2]]);
    c.eq("zzw", v.zzw(), [a[2], a[2], a[3]]);
    c.eq("zwx", v.zwx(), [a[2], a[3], a[0]]);
    c.eq("zwy", v.zwy(), [a[2], a[3], a[1]]);
    c.eq("zwz", v.zwz(), [a[2], a[3], a[2]]);
    c.eq("zww", v.zww(), [a[2], a[3], a[3]]);
    c.eq("wxx", v.wxx(), [a[3], a[0], a[0]]);
    c.eq("wxy", v.wxy(), [a[3], a[0], a[1]]);
    c.eq("wxz", v.wxz(), [a[3], a[0], a[2]]);
    c.eq("wxw", v.wxw(), [a[3], a[0], a[3]]);
    c.eq("wyx", v.wyx(), [a[3], a[1], a[0]]);
    c.eq("wyy", v.wyy(), [a[3], a[1], a[1]]);
    c.eq("wyz", v.wyz(), [a[3], a[1], a[2]]);
    c.eq("wyw", v.wyw(), [a[3], a[1], a[3]]);
    c.eq("wzx", v.wzx(), [a[3], a[2], a[0]]);
    c.eq("wzy", v.wzy(), [a[3], a[2], a[1]]);
    c.eq("wzz", v.wzz(), [a[3], a[2], a[2]]);
    c.eq("wzw", v.wzw(), [a[3], a[2], a[3]]);
    c.eq("wwx", v.wwx(), [a[3], a[3], a[0]]);
    c.eq("wwy", v.wwy(), [a[3], a[3], a[1]]);
    c.eq("wwz", v.wwz(), [a[3], a[3], a[2]]);
    c.eq("www", v.www(), [a[3], a[3], a[3]]);
    c.eq("xxxx", v.xxxx(), [a[0], a[0], a[0], a[0]]);
    c.eq("xxxy", v.xxxy(), [a[0], a[0], a[0], a[1]]);
    c.eq("xxxz", v.xxxz(), [a[0], a[0], a[0], a[2]]);
    c.eq("xxxw", v.xxxw(), [a[0], a[0], a[0], a[3]]);
    c.eq("xxyx", v.xxyx(), [a[0], a[0], a[1], a[0]]);
    c.eq("xxyy", v.xxyy(), [a[0], a[0], a[1], a[1]]);
    c.eq("xxyz", v.xxyz(), [a[0], a[0], a[1], a[2]]);
    c.eq("xxyw", v.xxyw(), [a[0], a[0], a[1], a[3]]);
    c.eq("xxzx", v.xxzx(), [a[0], a[0], a[2], a[0]]);
    c.eq("xxzy", v.xxzy(), [a[0], a[0], a[2], a[1]]);
    c.eq("xxzz", v.xxzz(), [a[0], a[0], a[2], a[2]]);
    c.eq("xxzw", v.xxzw(), [a[0], a[0], a[2], a[3]]);
    c.eq("xxwx", v.xxwx(), [a[0], a[0], a[3], a[0]]);
    c.eq("xxwy", v.xxwy(), [a[0], a[0], a[3], a[1]]);
    c.eq("xxwz", v.xxwz(), [a[0], a[0], a[3], a[2]]);
    c.eq("xxww", v.xxww(), [a[0], a[0], a[3], a[3]]);
    c.eq("xyxx", v.xyxx(), [a[0], a[1], a[0], a[0]]);
    c.eq("xyxy", v.xyxy(), [a[0], a[1], a[0], a[1]]);
    c.eq("xyxz", v.xyxz(), [a[0], a[1], a[0], a[2]]);
    c.eq("xyxw", v.xyxw(), [a[0], a[1], a[0], a[3]]);
    c.eq("xyyx", v.xyyx(), [a[0], a[1], a[1], a[0]]);
    c.eq("xyyy", v.xyyy(), [a[0], a[1], a[1], a[1]]);
    c.eq("xyyz", v.xyyz(), [a[0], a[1], a[1], a[2]]);
    c.eq("xyyw", v.xyyw(), [a[0], a[1], a[1], a[3]]);
    c.eq("xyzx", v.xyzx(), [a[0], a[1], a[2], a[0]]);
    c.eq("xyzy", v.xyzy(), [a[0], a[1], a[2], a[1]]);
    c.eq("xyzz", v.xyzz(), [a[0], a[1], a[2], a[2]]);
    c.eq("xyzw", v.xyzw(), [a[0], a[1], a[2], a[3]]);
    c.eq("xywx", v.xywx(), [a[0], a[1], a[3], a[0]]);
    c.eq("xywy", v.xywy(), [a[0], a[1], a[3], a[1]]);
    c.eq("xywz", v.xywz(), [a[0], a[1], a[3], a[2]]);
    c.eq("xyww", v.xyww(), [a[0], a[1], a[3], a[3]]);
    c.eq("xzxx", v.xzxx(), [a[0], a[2], a[0], a[0]]);
    c.eq("xzxy", v.xzxy(), [a[0], a[2], a[0], a[1]]);
    c.eq("xzxz", v.xzxz(), [a[0], a[2], a[0], a[2]]);
    c.eq("xzxw", v.xzxw(), [a[0], a[2], a[0], a[3]]);
    c.eq("xzyx", v.xzyx(), [a[0], a[2], a[1], a[0]]);
    c.eq("xzyy", v.xzyy(), [a[0], a[2], a[1], a[1]]);
    c.eq("xzyz", v.xzyz(), [a[0], a[2], a[1], a[2]]);
    c.eq("xzyw", v.xzyw(), [a[0], a[2], a[1], a[3]]);
    c.eq("xzzx", v.xzzx(), [a[0], a[2], a[2], a[0]]);
    c.eq("xzzy", v.xzzy(), [a[0], a[2], a[2], a[1]]);
    c.eq("xzzz", v.xzzz(), [a[0], a[2], a[2], a[2]]);
    c.eq("xzzw", v.xzzw(), [a[0], a[2], a[2], a[3]]);
    c.eq("xzwx", v.xzwx(), [a[0], a[2], a[3], a[0]]);
    c.eq("xzwy", v.xzwy(), [a[0], a[2], a[3], a[1]]);
    c.eq("xzwz", v.xzwz(), [a[0], a[2], a[3], a[2]]);
    c.eq("xzww", v.xzww(), [a[0], a[2], a[3], a[3]]);
    c.eq("xwxx", v.xwxx(), [a[0], a[3], a[0], a[0]]);
    c.eq("xwxy", v.xwxy(), [a[0], a[3], a[0], a[1]]);
    c.eq("xwxz", v.xwxz(), [a[0], a[3], a[0], a[2]]);
    c.eq("xwxw", v.xwxw(), [a[0], a[3], a[0], a[3]]);
    c.eq("xwyx", v.xwyx(), [a[0], a[3], a[1], a[0]]);
    c.eq("xwyy", v.xwyy(), [a[0], a[3], a[1], a[1]]);
    c.eq("xwyz", v.xwyz(), [a[0], a[3], a[1], a[2]]);
    c.eq("xwyw", v.xwyw(), [a[0], a[3], a[1], a[3]]);
    c.eq("xwzx", v.xwzx(), [a[0], a[3], a[2], a[0]]);
    c.eq("xwzy", v.xwzy(), [a[0], a[3], a[2], a[1]]);
    c.eq("xwzz", v.xwzz(), [a[0], a[3], a[2], a[2]]);
    c.eq("xwzw", v.xwzw(), [a[0], a[3], a[2], a[3]]);
    c.eq("xwwx", v.xwwx(), [a[0], a[3], a[3], a[0]]);
    c.eq("xwwy", v.xwwy(), [a[0], a[3], a[3], a[1]]);
    c.eq("xwwz", v.xwwz(), [a[0], a[3], a[3], a[2]]);
    c.eq("xwww", v.xwww(), [a[0], a[3], a[3], a[3]]);
    c.eq("yxxx", v.yxxx(), [a[1], a[0], a[0], a[0]]);
    c.eq("yxxy", v.yxxy(), [a[1], a[0], a[0], a[1]]);
    c.eq("yxxz", v.yxxz(), [a[1], a[0], a[0], a[2]]);
    c.eq("yxxw", v.yxxw(), [a[1], a[0], a[0], a[3]]);
    c.eq("yxyx", v.yxyx(), [a[1], a[0], a[1], a[0]]);
    c.eq("yxyy", v.yxyy(), [a[1], a[0], a[1], a[1]]);
    c.eq("yxyz", v.yxyz(), [a[1], a[0], a[1], a[2]]);
    c.eq("yxyw", v.yxyw(), [a[1], a[0], a[1], a[3]]);
    c.eq("yxzx", v.yxzx(), [a[1], a[0], a[2], a[0]]);
    c.eq("yxzy", v.yxzy(), [a[1], a[0], a[2], a[1]]);
    c.eq("yxzz", v.yxzz(), [a[1], a[0], a[2], a[2]]);
    c.eq("yxzw", v.yxzw(), [a[1], a[0], a[2], a[3]]);
    c.eq("yxwx", v.yxwx(), [a[1], a[0], a[3], a[0]]);
    c.eq("yxwy", v.yxwy(), [a[1], a[0], a[3], a[1]]);
    c.eq("yxwz", v.yxwz(), [a[1], a[0], a[3], a[2]]);
    c.eq("yxww", v.yxww(), [a[1], a[0], a[3], a[3]]);
    c.eq("yyxx", v.yyxx(), [a[1], a[1], a[0], a[0]]);
    c.eq("yyxy", v.yyxy(), [a[1], a[1], a[0], a[1]]);
    c.eq("yyxz", v.yyxz(), [a[1], a[1], a[0], a[2]]);
    c.eq("yyxw", v.yyxw(), [a[1], a[1], a[0], a[3]]);
    c.eq("yyyx", v.yyyx(), [a[1], a[1], a[1], a[0]]);
    c.eq("yyyy", v.yyyy(), [a[1], a[1], a[1], a[1]]);
    c.eq("yyyz", v.yyyz(), [a[1], a[1], a[1], a[2]]);
    c.eq("yyyw", v.yyyw(), [a[1], a[1], a[1], a[3]]);
    c.eq("yyzx", v.yyzx(), [a[1], a[1], a[2], a[0]]);
    c.eq("yyzy", v.yyzy(), [a[1], a[1], a[2], a[1]]);
    c.eq("yyzz", v.yyzz(), [a[1], a[1], a[2], a[2]]);
    c.eq("yyzw", v.yyzw(), [a[1], a[1], a[2], a[3]]);
    c.eq("yywx", v.yywx(), [a[1], a[1], a[3], a[0]]);
    c.eq("yywy", v.yywy(), [a[1], a[1], a[3], a[1]]);
    c.eq("yywz", v.yywz(), [a[1], a[1], a[3], a[2]]);
    c.eq("yyww", v.yyww(), [a[1], a[1], a[3], a[3]]);
    c.eq("yzxx", v.yzxx(), [a[1], a[2], a[0], a[0]]);
    c.eq("yzxy", v.yzxy(), [a[1], a[2], a[0], a[1]]);
    c.eq("yzxz", v.yzxz(), [a[1], a[2], a[0], a[2]]);
    c.eq("yzxw", v.yzxw(), [a[1], a[2], a[0], a[3]]);
    c.eq("yzyx", v.yzyx(), [a[1], a[2], a[1], a[0]]);
    c.eq("yzyy", v.yzyy(), [a[1], a[2], a[1], a[1]]);
    c.eq("yzyz", v.yzyz(), [a[1], a[2], a[1], a[2]]);
    c.eq("yzyw", v.yzyw(), [a[1], a[2], a[1], a[3]]);
    c.eq("yzzx", v.yzzx(), [a[1], a[2], a[2], a[0]]);
    c.eq("yzzy", v.yzzy(), [a[1], a[2], a[2], a[1]]);
    c.eq("yzzz", v.yzzz(), [a[1], a[2], a[2], a[2]]);
    c.eq("yzzw", v.yzzw(), [a[1], a[2], a[2], a[3]]);
    c.eq("yzwx", v.yzwx(), [a[1], a[2], a[3], a[0]]);
    c.eq("yzwy", v.yzwy(), [a[1], a[2], a[3], a[1]]);
    c.eq("yzwz", v.yzwz(), [a[1], a[2], a[3], a[2]]);
    c.eq("yzww", v.yzww(), [a[1], a[2], a[3], a[3]]);
    c.eq("ywxx", v.ywxx(), [a[1], a[3], a[0], a[0]]);
    c.eq("ywxy", v.ywxy(), [a[1], a[3], a[0], a[1]]);
    c.eq("ywxz", v.ywxz(), [a[1], a[3], a[0], a[2]]);
    c.eq("ywxw", v.ywxw(), [a[1], a[3], a[0], a[3]]);
    c.eq("ywyx", v.ywyx(), [a[1], a[3], a[1], a[0]]);
    c.eq("ywyy", v.ywyy(), [a[1], a[3], a[1], a[1]]);
    c.eq("ywyz", v.ywyz(), [a[1], a[3], a[1], a[2]]);
    c.eq("ywyw", v.ywyw(), [a[1], a[3], a[1], a[3]]);
    c.eq("ywzx", v.ywzx(), [a[1], a[3], a[2], a[0]]);
    c.eq("ywzy", v.ywzy(), [a[1], a[3], a[2], a[1]]);
    c.eq("ywzz", v.ywzz(), [a[1], a[3], a[2], a[2]]);
    c.eq("ywzw", v.ywzw(), [a[1], a[3], a[2], a[3]]);
    c.eq("ywwx", v.ywwx(), [a[1], a[3], a[3], a[0]]);
    c.eq("ywwy", v.ywwy(), [a[1], a[3], a[3], a[1]]);
    c.eq("ywwz", v.ywwz(), [a[1], a[3], a[3], a[2]]);
    c.eq("ywww", v.ywww(), [a[1], a[3], a[3], a[3]]);
    c.eq("zxxx", v.zxxx(), [a[2], a[0], a[0], a[0]]);
    c.eq("zxxy", v.zxxy(), [a[2], a[0], a[0], a[1]]);
    c.eq("zxxz", v.zxxz(), [a[2], a[0], a[0], a[2]]);
    c.eq("zxxw", v.zxxw(), [a[2], a[0], a[0], a[3]]);
    c.eq("zxyx", v.zxyx(), [a[2], a[0], a[1], a[0]]);
    c.eq("zxyy", v.zxyy(), [a[2], a[0], a[1], a[1]]);
    c.eq("zxyz", v.zxyz(), [a[2], a[0], a[1], a[2]]);
    c.eq("zxyw", v.zxyw(), [a[2], a[0], a[1], a[3]]);
    c.eq("zxzx", v.zxzx(), [a[2], a[0], a[2], a[0]]);
    c.eq("zxzy", v.zxzy(), [a[2], a[0], a[2], a[1]]);
    c.eq("zxzz", v.zxzz(), [a[2], a[0], a[2], a[2]]);
    c.eq("zxzw", v.zxzw(), [a[2], a[0], a[2], a[3]]);
    c.eq("zxwx", v.zxwx(), [a[2], a[0], a[3], a[0]]);
    c.eq("zxwy", v.zxwy(), [a[2], a[0], a[3], a[1]]);
    c.eq("zxwz", v.zxwz(), [a[2], a[0], a[3], a[2]]);
    c.eq("zxww", v.zxww(), [a[2], a[0], a[3], a[3]]);
    c.eq("zyxx", v.zyxx(), [a[2], a[1], a[0], a[0]]);
    c.eq("zyxy", v.zyxy(), [a[2], a[1], a[0], a[1]]);
    c.eq("zyxz", v.zyxz(), [a[2], a[1], a[0], a[2]]);
    c.eq("zyxw", v.zyxw(), [a[2], a[1], a[0], a[3]]);
    c.eq("zyyx", v.zyyx(), [a[2], a[1], a[1], a[0]]);
    c.eq("zyyy", v.zyyy(), [a[2], a[1], a[1], a[1]]);
    c.eq("zyyz", v.zyyz(), [a[2], a[1], a[1], a[2]]);
    c.eq("zyyw", v.zyyw(), [a[2], a[1], a[1], a[3]]);
    c.eq("zyzx", v.zyzx(), [a[2], a[1], a[2], a[0]]);
    c.eq("zyzy", v.zyzy(), [a[2], a[1], a[2], a[1]]);
    c.eq("zyzz", v.zyzz(), [a[2], a[1], a[2], a[2]]);
    c.eq("zyzw", v.zyzw(), [a[2], a[1], a[2], a[3]]);
    c.eq("zywx", v.zywx(), [a[2], a[1], a[3], a[0]]);
    c.eq("zywy", v.zywy(), [a[2], a[1], a[3], a[1]]);
    c.eq("zywz", v.zywz(), [a[2], a[1], a[3], a[2]]);
    c.eq("zyww", v.zyww(), [a[2], a[1], a[3], a[3]]);
    c.eq("zzxx", v.zzxx(), [a[2], a[2], a[0], a[0]]);
    c.eq("zzxy", v.zzxy(), [a[2], a[2], a[0], a[1]]);
    c.eq("zzxz", v.zzxz(), [a[2], a[2], a[0], a[2]]);
    c.eq("zzxw", v.zzxw(), [a[2], a[2], a[0], a[3]]);
    c.eq("zzyx", v.zzyx(), [a[2], a[2], a[1], a[0]]);
    c.eq("zzyy", v.zzyy(), [a[2], a[2], a[1], a[1]]);
    c.eq("zzyz", v.zzyz(), [a[2], a[2], a[1], a[2]]);
    c.eq("zzyw", v.zzyw(), [a[2], a[2], a[1], a[3]]);
    c.eq("zzzx", v.zzzx(), [a[2], a[2], a[2], a[0]]);
    c.eq("zzzy", v.zzzy(), [a[2], a[2], a[2], a[1]]);
    c.eq("zzzz", v.zzzz(), [a[2], a[2], a[2], a[2]]);
    c.eq("zzzw", v.zzzw(), [a[2], a[2], a[2], a[3]]);
    c.eq("zzwx", v.zzwx(), [a[2], a[2], a[3], a[0]]);
    c.eq("zzwy", v.zzwy(), [a[2], a[2], a[3], a[1]]);
    c.eq("zzwz", v.zzwz(), [a[2], a[2], a[3], a[2]]);
    c.eq("zzww", v.zzww(), [a[2], a[2], a[3], a[3]]);
    c.eq("zwxx", v.zwxx(), [a[2], a[3], a[0], a[0]]);
    c.eq("zwxy", v.zwxy(), [a[2], a[3], a[0], a[1]]);
    c.eq("zwxz", v.zwxz(), [a[2], a[3], a[0], a[2]]);
    c.eq("zwxw", v.zwxw(), [a[2], a[3], a[0], a[3]]);
    c.eq("zwyx", v.zwyx(), [a[2], a[3], a[1], a[0]]);
    c.eq("zwyy", v.zwyy(), [a[2], a[3], a[1], a[1]]);
    c.eq("zwyz", v.zwyz(), [a[2], a[3], a[1], a[2]]);
    c.eq("zwyw", v.zwyw(), [a[2], a[3], a[1], a[3]]);
    c.eq("zwzx", v.zwzx(), [a[2], a[3], a[2], a[0]]);
    c.eq("zwzy", v.zwzy(), [a[2], a[3], a[2], a[1]]);
    c.eq("zwzz", v.zwzz(), [a[2], a[3], a[2], a[2]]);
    c.eq("zwzw", v.zwzw(), [a[2], a[3], a[2], a[3]]);
    c.eq("zwwx", v.zwwx(), [a[2], a[3], a[3], a[0]]);
    c.eq("zwwy", v.zwwy(), [a[2], a[3], a[3], a[1]]);
    c.eq("zwwz", v.zwwz(), [a[2], a[3], a[3], a[2]]);
    c.eq("zwww", v.zwww(), [a[2], a[3], a[3], a[3]]);
    c.eq("wxxx", v.wxxx(), [a[3], a[0], a[0], a[0]]);
    c.eq("wxxy", v.wxxy(), [a[3], a[0], a[0], a[1]]);
    c.eq("wxxz", v.wxxz(), [a[3], a[0], a[0], a[2]]);
    c.eq("wxxw", v.wxxw(), [a[3], a[0], a[0], a[3]]);
    c.eq("wxyx", v.wxyx(), [a[3], a[0], a[1], a[0]]);
    c.eq("wxyy", v.wxyy(), [a[3], a[0], a[1], a[1]]);
    c.eq("wxyz", v.wxyz(), [a[3], a[0], a[1], a[2]]);
    c.eq("wxyw", v.wxyw(), [a[3], a[0], a[1], a[3]]);
    c.eq("wxzx", v.wxzx(), [a[3], a[0], a[2], a[0]]);
    c.eq("wxzy", v.wxzy(), [a[3], a[0], a[2], a[1]]);
    c.eq("wxzz", v.wxzz(), [a[3], a[0], a[2], a[2]]);
    c.eq("wxzw", v.wxzw(), [a[3], a[0], a[2], a[3]]);
    c.eq("wxwx", v.wxwx(), [a[3], a[0], a[3], a[0]]);
    c.eq("wxwy", v.wxwy(), [a[3], a[0], a[3], a[1]]);
    c.eq("wxwz", v.wxwz(), [a[3], a[0], a[3], a[2]]);
    c.eq("wxww", v.wxww(), [a[3], a[0], a[3], a[3]]);
    c.eq("wyxx", v.wyxx(), [a[3], a[1], a[0], a[0]]);
    c.eq("wyxy", v.wyxy(), [a[3], a[1], a[0], a[1]]);
    c.eq("wyxz", v.wyxz(), [a[3], a[1], a[0], a[2]]);
    c.eq("wyxw", v.wyxw(), [a[3], a[1], a[0], a[3]]);
    c.eq("wyyx", v.wyyx(), [a[3], a[1], a[1], a[0]]);
    c.eq("wyyy", v.wyyy(), [a[3], a[1], a[1], a[1]]);
    c.eq("wyyz", v.wyyz(), [a[3], a[1], a[1], a[2]]);
    c.eq("wyyw", v.wyyw(), [a[3], a[1], a[1], a[3]]);
    c.eq("wyzx", v.wyzx(), [a[3], a[1], a[2], a[0]]);
    c.eq("wyzy", v.wyzy(), [a[3], a[1], a[2], a[1]]);
    c.eq("wyzz", v.wyzz(), [a[3], a[1], a[2], a[2]]);
    c.eq("wyzw", v.wyzw(), [a[3], a[1], a[2], a[3]]);
    c.eq("wywx", v.wywx(), [a[3], a[1], a[3], a[0]]);
    c.eq("wywy", v.wywy(), [a[3], a[1], a[3], a[1]]);
    c.eq("wywz", v.wywz(), [a[3], a[1], a[3], a[2]]);
    c.eq("wyww", v.wyww(), [a[3], a[1], a[3], a[3]]);
    c.eq("wzxx", v.wzxx(), [a[3], a[2], a[0], a[0]]);
    c.eq("wzxy", v.wzxy(), [a[3], a[2], a[0], a[1]]);
    c.eq("wzxz", v.wzxz(), [a[3], a[2], a[0], a[2]]);
    c.eq("wzxw", v.wzxw(), [a[3], a[2], a[0], a[3]]);
    c.eq("wzyx", v.wzyx(), [a[3], a[2], a[1], a[0]]);
    c.eq("wzyy", v.wzyy(), [a[3], a[2], a[1], a[1]]);
    c.eq("wzyz", v.wzyz(), [a[3], a[2], a[1], a[2]]);
    c.eq("wzyw", v.wzyw(), [a[3], a[2], a[1], a[3]]);
    c.eq("wzzx", v.wzzx(), [a[3], a[2], a[2], a[0]]);
    c.eq("wzzy", v.wzzy(), [a[3], a[2], a[2], a[1]]);
    c.eq("wzzz", v.wzzz(), [a[3], a[2], a[2], a[2]]);
    c.eq("wzzw", v.wzzw(), [a[3], a[2], a[2], a[3]]);
    c.eq("wzwx", v.wzwx(), [a[3], a[2], a[3], a[0]]);
    c.eq("wzwy", v.wzwy(), [a[3], a[2], a[3], a[1]]);
    c.eq("wzwz", v.wzwz(), [a[3], a[2], a[3], a[2]]);
    c.eq("wzww", v.wzww(), [a[3], a[2], a[3], a[3]]);
    c.eq("wwxx", v.wwxx(), [a[3], a[3], a[0], a[0]]);
    c.eq("wwxy", v.wwxy(), [a[3], a[3], a[0], a[1]]);
    c.eq("wwxz", v.wwxz(), [a[3], a[3], a[0], a[2]]);
    c.eq("wwxw", v.wwxw(), [a[3], a[3], a[0], a[3]]);
    c.eq("wwyx", v.wwyx(), [a[3], a[3], a[1], a[0]]);
    c.eq("wwyy", v.wwyy(), [a[3], a[3], a[1], a[1]]);
    c.eq("wwyz", v.wwyz(), [a[3], a[3], a[1], a[2]]);
    c.eq("wwyw", v.wwyw(), [a[3], a[3], a[1], a[3]]);
    c.eq("wwzx", v.wwzx(), [a[3], a[3], a[2], a[0]]);
    c.eq("wwzy", v.wwzy(), [a[3], a[3], a[2], a[1]]);
    c.eq("wwzz", v.wwzz(), [a[3], a[3], a[2], a[2]]);
    c.eq("wwzw", v.wwzw(), [a[3], a[3], a[2], a[3]]);
    c.eq("wwwx", v.wwwx(), [a[3], a[3], a[3], a[0]]);
    c.eq("wwwy", v.wwwy(), [a[3], a[3], a[3], a[1]]);
    c.eq("wwwz", v.wwwz(), [a[3], a[3], a[3], a[2]]);
    c.eq("wwww", v.wwww(), [a[3], a[3], a[3], a[3]]);
}
pub fn point1<S: Copy + Flat>(c: &mut Case, v: &Point1<S>, a: &[S; 1]) {
    c.eq("x", v.x(), [a[0]]);
}
pub fn point2<S: Copy + Flat>(c: &mut Case, v: &Point2<S>, a: &[S; 2]) {
    c.eq("x", v.x(), [a[0]]);
    c.eq("y", v.y(), [a[1]]);
    c.eq("xx", v.xx(), [a[0], a[0]]);
    c.eq("xy", v.xy(), [a[0], a[1]]);
    c.eq("yx", v.yx(), [a[1], a[0]]);
    c.eq("yy", v.yy(), [a[1], a[1]]);
}
pub fn point3<S: Copy + Flat>(c: &mut Case, v: &Point3<S>, a: &[S; 3]) {
    c.eq("x", v.x(), [a[0]]);
    c.eq("y", v.y(), [a[1]]);
    c.eq("z", v.z(), [a[2]]);
    c.eq("xx", v.xx(), [a[0], a[0]]);
    c.eq("xy", v.xy(), [a[0], a[1]]);
    c.eq("xz", v.xz(), [a[0], a[2]]);
    c.eq("yx", v.yx(), [a[1], a[0]]);
    c.eq("yy", v.yy(), [a[1], a[1]]);
    c.eq("yz", v.yz(), [a[1], a[2]]);
    c.eq("zx", v.zx(), [a[2], a[0]]);
    c.eq("zy", v.zy(), [a[2], a[1]]);
    c.eq("zz", v.zz(), [a[2], a[2]]);
    c.eq("xxx", v.xxx(), [a[0], a[0], a[0]]);
    c.eq("xxy", v.xxy(), [a[0], a[0], a[1]]);
    c.eq("xxz", v.xxz(), [a[0], a[0], a[2]]);
    c.eq("xyx", v.xyx(), [a[0], a[1], a[0]]);
    c.eq("xyy", v.xyy(), [a[0], a[1], a[1]]);
    c.eq("xyz", v.xyz(), [a[0], a[1], a[2]]);
    c.eq("xzx", v.xzx(), [a[0], a[2], a[0]]);
    c.eq("xzy", v.xzy(), [a[0], a[2], a[1]]);
    c.eq("xzz", v.xzz(), [a[0], a[2], a[2]]);
    c.eq("yxx", v.yxx(), [a[1], a[0], a[0]]);
    c.eq("yxy", v.yxy(), [a[1], a[0], a[1]]);
    c.eq("yxz", v.yxz(), [a[1], a[0], a[2]]);
    c.eq("yyx", v.yyx(), [a[1], a[1], a[0]]);
    c.eq("yyy", v.yyy(), [a[1], a[1], a[1]]);
    c.eq("yyz", v.yyz(), [a[1], a[1], a[2]]);
    c.eq("yzx", v.yzx(), [a[1], a[2], a[0]]);
    c.eq("yzy", v.yzy(), [a[1], a[2], a[1]]);
    c.eq("yzz", v.yzz(), [a[1], a[2], a[2]]);
    c.eq("zxx", v.zxx(), [a[2], a[0], a[0]]);
    c.eq("zxy", v.zxy(), [a[2], a[0], a[1]]);
    c.eq("zxz", v.zxz(), [a[2], a[0], a[2]]);
    c.eq("zyx", v.zyx(), [a[2], a[1], a[0]]);
    c.eq("zyy", v.zyy(), [a[2], a[1], a[1]]);
    c.eq("zyz", v.zyz(), [a[2], a[1], a[2]]);
    c.eq("zzx", v.zzx(), [a[2], a[2], a[0]]);
    c.eq("zzy", v.zzy(), [a[2], a[2], a[1]]);
    c.eq("zzz", v.zzz(), [a[2], a[2], a[2]]);
}
