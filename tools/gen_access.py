#!/usr/bin/env python3
"""Generates harness/src/gen/swizzles.rs: one call per swizzle name; the expected component order is the name itself."""
import itertools, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
def emit(kind, maxdim):
    for n in range(1, maxdim + 1):
        letters = "xyzw"[:n]
        out.append("pub fn %s%d<S: Copy + Flat>(c: &mut Case, v: &%s%d<S>, a: &[S; %d]) {" % (kind.lower(), n, kind, n, n))
        for k in range(1, n + 1):
            for t in itertools.product(range(n), repeat=k):
                name = "".join(letters[i] for i in t)
                out.append("    c.eq(\"%s\", v.%s(), [%s]);" % (name, name, ", ".join("a[%d]" % i for i in t)))
        out.append("}")
emit("Vector", 4)
emit("Point", 3)
open(ROOT + "/harness/src/gen/swizzles.rs", "w").write("// Generated by tools/gen_access.py.\nuse cglinalg_core::*;\nuse cglmc::*;\n" + "\n".join(out) + "\n")
# matrices: constructor argument order and field names
out = []
for r in range(1, 5):
    for c in range(1, 5):
        if (r, c) in [(2, 1), (3, 1), (4, 1)]: continue
        names = ["c%dr%d" % (j, i) for j in range(c) for i in range(r)]
        n = r * c
        args = ", ".join("a[%d]" % i for i in range(n))
        fields = ", ".join("m." + x for x in names)
        out.append("pub fn new%dx%d<S: Copy>(a: &[S; %d]) -> Matrix%dx%d<S> { Matrix%dx%d::new(%s) }" % (r, c, n, r, c, r, c, args))
        out.append("pub fn fields%dx%d<S: Copy>(m: &Matrix%dx%d<S>) -> [S; %d] { [%s] }" % (r, c, r, c, n, fields))
        out.append("pub fn set%dx%d<S: Copy>(m: &mut Matrix%dx%d<S>, k: usize, v: S) { match k { %s _ => unreachable!() } }"
                   % (r, c, r, c, " ".join("%d => m.%s = v," % (i, x) for i, x in enumerate(names))))
open(ROOT + "/harness/src/gen/fields.rs", "w").write("// Generated by tools/gen_access.py.\nuse cglinalg_core::*;\n" + "\n".join(out) + "\n")
