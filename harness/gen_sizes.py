#!/usr/bin/env python3
"""Generates instantiations of the generic functions in sizes.go for types of many sizes: gen_sizes.py SEED N OUT"""
import random, sys
seed, n, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
R = random.Random(seed)
types = []
if n:
    words = list(range(1, 141))
    R.shuffle(words)
    must = [1, 2, 8, 9, 16, 64, 126, 127, 128, 129]
    for k in must + [w for w in words if w not in must][:n]:
        types.append("[%d]uint64" % k)
    for k in R.sample(range(1, 1100), n // 4): types.append("[%d]uint8" % k)
    for k in R.sample(range(1, 70), n // 8) + [64]: types.append("[%d]string" % k)
    for k in R.sample(range(1, 130), n // 8): types.append("struct { A [%d]int64; P *int; B bool }" % k)
    for k in R.sample(range(1, 66), n // 8): types.append("struct { A [%d]any; B int32 }" % k)
    types += ["int8", "string", "[]int", "error", "map[string]int", "func(int) int", "struct{}", "float32", "[0]int", "*int", "complex128"]
    types = list(dict.fromkeys(types))
with open(out, "w") as f:
    f.write("// Code generated by gen_sizes.py. DO NOT EDIT.\n\npackage main\n\nfunc init() {\n")
    for i, t in enumerate(types):
        f.write("\tsizeCases = append(sizeCases, sizesOf(%d, Sized[%s], Sized2[%s], (SizedM[%s]).Val, (*SizedM[%s]).Ptr,\n" % (i, t, t, t, t))
        f.write("\t\tfunc(a %s, n int) (%s, int) { return Sized(a, n) }, func(n int, a, b %s, s ...%s) (string, %s, error) { return Sized2(n, a, b, s...) },\n" % (t, t, t, t, t))
        f.write("\t\tfunc(m SizedM[%s], a %s) (int, %s) { return m.Val(a) }, func(m *SizedM[%s], a ...%s) %s { return m.Ptr(a...) }))\n" % (t, t, t, t, t, t))
    f.write("}\n")
