#!/usr/bin/env python3
"""Generates the zoo of mock targets: gen_zoo.py SEED NFUNC NMETH NGEN OUT.go"""
import random, sys

seed, nfunc, nmeth, ngen, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
R = random.Random(seed)
L = []          # declarations
REG = []        # init statements

SCAL = ["bool","int","int8","int16","int32","int64","uint","uint8","uint16","uint32","uint64","uintptr","float32","float64",
        "complex64","complex128","string","MyInt","MyStr","MyF","MyB"]
structs = []    # (name, approx size)

def scalar(): return R.choice(SCAL)

def typ(d=0, big=True):
    k = R.random()
    if d > 2 or k < 0.40: return scalar()
    if k < 0.50: return "[]" + typ(d+1)
    if k < 0.57: return "*" + R.choice([scalar(), R.choice(structs) if structs else "int"])
    if k < 0.62: return "map[%s]%s" % (R.choice(["int","string","MyStr","uint8"]), typ(d+1))
    if k < 0.66: return R.choice(["any","error","fmt.Stringer","Iface"])
    if k < 0.70: return R.choice(["func(int) int","func()","func(string, ...int) error"])
    if k < 0.73: return R.choice(["chan int","<-chan string","chan<- MyInt"])
    if k < 0.75: return "unsafe.Pointer"
    if k < 0.83: return "[%d]%s" % (R.choice([0,1,1,2,3,5]), typ(d+1))
    if k < 0.85: return "struct{}"
    if k < 0.97 and structs: return R.choice(structs)
    if big: return sized() if R.random() < 0.5 else R.choice(["Big200","Big700","Big2000"])
    return scalar()

def sized():
    """a type of any size, more often of one at which compilers switch from one way of copying to another"""
    k = R.random()
    if k < 0.4: return "[%d]uint64" % R.choice([2, 4, 7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 126, 127, 128, 129, 130])
    if k < 0.5: return "[%d]uint64" % R.randint(1, 135)
    if k < 0.7: return "[%d]byte" % R.choice([3, 5, 7, 9, 12, 15, 17, 31, 33, 63, 65, 127, 129, 255, 1000, 1023, 1025])
    if k < 0.8: return "[%d]string" % R.choice([1, 4, 5, 8, 32, 63, 64, 65])
    return "struct { X [%d]int64; Y *int; Z uint8 }" % R.choice([3, 6, 7, 30, 62, 125, 126, 127, 128])

def mkstructs(n):
    for i in range(n):
        fs = []
        for j in range(R.choice([0,1,2,3,4,6,9])):
            nm = "_" if R.random() < 0.06 else "A%d" % j
            fs.append("%s %s" % (nm, typ(1, big=False)))
        nm = "ZS%d" % i
        L.append("type %s struct { %s }" % (nm, "; ".join(fs)))
        structs.append(nm)

LOW = 'if zrt.StackLeft() < zrt.StackMin { zrt.LowStack("%s") }'

def params(maxn):
    n = R.choice([0,1,1,2,2,3,4,5,7,10,14])
    n = min(n, maxn)
    return [typ() for _ in range(n)]

def stylecode(nm, style):
    pre = []
    if "frame" in style:
        n = int(style[style.index("frame")+5:])
        pre.append("var buf [%d]byte; for i := range buf { buf[i] = byte(i) }; _ = buf[%d]" % (n, n//2))
    elif style == "defer":
        pre.append('defer zrt.Deferred("%s")' % nm)
    elif style == "recover":
        pre.append('defer func() { if r := recover(); r != nil { zrt.Deferred("%s"); panic(r) } }()' % nm)
    elif style == "loop":
        pre.append("x := byte(0); for i := 0; i < 3; i++ { x += byte(i) }; _ = x")
    return pre

def style():
    k = R.random()
    if k < 0.4: return "plain"
    if k < 0.6: return "frame%d" % R.choice([16, 64, 100, 130, 180, 250, 300, 600, 1000, 1800, 3000])
    if k < 0.7: return "defer"
    if k < 0.8: return "recover"
    if k < 0.9: return "escape"
    return "loop"

def emit_body(nm, st, names, outs, selfcall):
    b = [LOW % nm] + stylecode(nm, st)
    fn = "EnterP" if st.startswith("escape") else "Enter"
    amp = "&" if st.startswith("escape") else ""
    b.append("s := zrt.%s(%s); _ = s" % (fn, ", ".join(['"%s"' % nm] + [amp + x for x in names])))
    if outs:
        if selfcall: b.append("if s.Recurse { return %s }" % selfcall)
        for i, o in enumerate(outs):
            b.append("r%d = zrt.As[%s](s.Ret(%d))" % (i, o, i))
        b.append("return")
    elif selfcall:
        b.append("if s.Recurse { %s }" % selfcall)
    return "\n\t".join(b)

def sig(ins, variadic, first=0):
    ps = []
    for i, t in enumerate(ins):
        if variadic and i == len(ins)-1: ps.append("a%d ...%s" % (i+first, t[2:]))
        else: ps.append("a%d %s" % (i+first, t))
    return ", ".join(ps)

def outsig(outs):
    return "(%s)" % ", ".join("r%d %s" % (i, t) for i, t in enumerate(outs)) if outs else ""

def argl(ins, variadic, first=0, names=True):
    r = ["a%d" % (i+first) for i in range(len(ins))]
    if variadic: r[-1] += "..."
    return ", ".join(r)

def callbody(kinds, ins, outs, base):
    """kinds: list of (name, expression using v0.. )"""
    vs = []
    for i, t in enumerate(ins):
        vs.append("v%d := zrt.As[%s](in[%d])" % (i + base, t, i + base))
    lines = ["func(kind int, in []any) (out []any) {"]
    lines += ["\t" + v + "; _ = v%d" % (i+base) for i, v in enumerate(vs)]
    rs = ", ".join("r%d" % i for i in range(len(outs)))
    if outs:
        lines += ["\tvar r%d %s" % (i, t) for i, t in enumerate(outs)]
    asg = (rs + " = ") if outs else ""
    lines.append("\tswitch kind {")
    for i, (k, pre, e) in enumerate(kinds):
        lines.append("\tcase %d: // %s" % (i, k))
        if pre: lines.append("\t\t" + pre)
        if k == "defer":
            lines.append("\t\tfunc() { defer func() { %s%s }() }()" % (asg, e))
        elif k == "go":
            lines.append("\t\tzrt.InGo(func() { %s%s })" % (asg, e))
        else:
            lines.append("\t\t%s%s" % (asg, e))
    lines.append("\t}")
    lines.append("\treturn []any{%s}" % rs)
    lines.append("}")
    return "\n".join(lines)

def register(nm, fn, ins_all, outs, kinds, extra, base=0):
    REG.append('zrt.Register(&zrt.Target{Name: %s, Fn: %s, Kinds: []string{%s}, %s Call: %s})' % (
        nm, fn, ", ".join('"%s"' % k for k, _, _ in kinds), extra, callbody(kinds, ins_all, outs, base)))

def vargs(n, variadic, first=0):
    r = ["v%d" % (i+first) for i in range(n)]
    if variadic: r[-1] += "..."
    return ", ".join(r)

# ------------------------------------------------------------------ functions
def gen_func(i):
    nm = "F%d" % i
    ins = params(14); outs = [typ() for _ in range(R.choice([0,1,1,1,2,2,3,5,11]))]
    variadic = R.random() < 0.25
    if variadic: ins = ins[:8] + ["[]" + typ(1)]
    st = style()
    huge = i % 16 == 5  # more arguments than fit on a small stack, small frame: nothing is copied, no recursion
    if huge:
        ins, outs, st, variadic = [typ() for _ in range(R.choice([0,1,3]))] + ["Big9000"], [scalar() for _ in range(R.choice([0,1,2]))], "escapeframe%d" % R.choice([50, 1500, 3000, 3500]), False
        R.shuffle(ins)
    names = ["a%d" % j for j in range(len(ins))]
    lit = R.random() < 0.15
    self = "%s(%s)" % (nm, argl(ins, variadic)) if not huge else None
    body = emit_body(nm, st, names, outs, self)
    if lit:
        L.append("var %s func(%s) %s" % (nm, sig(ins, variadic), outsig(outs)))
        L.append("func init() { %s = func(%s) %s {\n\t%s\n} }" % (nm, sig(ins, variadic), outsig(outs), body))
    else:
        L.append("func %s(%s) %s {\n\t%s\n}" % (nm, sig(ins, variadic), outsig(outs), body))
    va = vargs(len(ins), variadic)
    kinds = [("direct", "", "%s(%s)" % (nm, va)), ("funcval", "f := %s" % nm, "f(%s)" % va),
             ("defer", "", "%s(%s)" % (nm, va)), ("go", "", "%s(%s)" % (nm, va))]
    if variadic and not R.random() < 0.3:
        # individual arguments instead of the slice
        pre = vargs(len(ins)-1, False)
        et = ins[-1][2:]
        last = "v%d" % (len(ins)-1)
        e = "spread%s(%s)" % (nm, vargs(len(ins), False))
        ps = sig(ins, False)
        cases = "\n".join("\tcase %d: %s%s(%s)" % (k, "return " if outs else "", nm,
                 ", ".join([x for x in [argl(ins[:-1], False)] if x] + ["a%d[%d]" % (len(ins)-1, q) for q in range(k)])) for k in range(4))
        L.append("func spread%s(%s) %s {\n\tswitch len(a%d) {\n%s\n\tdefault:\n\t\tpanic(\"spread\")\n\t}\n}" % (nm, ps, outsig(outs), len(ins)-1, cases))
        kinds.append(("spread", "", e))
    register('"%s"' % nm, nm, ins, outs, kinds, 'Style: "%s",' % (st + ("/info" if huge else "/lit" if lit else "")))

# leaf functions: no events, no calls; the odd ones are long and have a stack check (see known finding K9)
def gen_leaf(i):
    nm = "Leaf%d" % i
    n = R.choice([1,2,3,4])
    ts = [R.choice(["int","int64","uint32","int8","uint16"]) for _ in range(n)]
    rt = R.choice(["int","int64","uint8"])
    e = " + ".join("%s(a%d)*%d" % (rt, j, R.randrange(1,100)) for j in range(n))
    if i % 2:
        k = R.randrange(20, 40)
        L.append("func %s(%s) %s {\n\tvar b [%d]%s\n\tfor i := range b {\n\t\tb[i] = %s + %s(i)\n\t}\n\tr0 = b[%d] - b[%d]\n\tr0 += b[0] - %d + %d\n\treturn\n}" % (
            nm, sig(ts, False), "(r0 %s)" % rt, k, rt, e, rt, k//2, k//3, k//2, k//3))
    else:
        L.append("func %s(%s) %s { return %s }" % (nm, sig(ts, False), "(r0 %s)" % rt, e))
    L.append("func twin%s(%s) %s { return %s }" % (nm, sig(ts, False), "(r0 %s)" % rt, e))
    va = vargs(n, False)
    ex = "func(in []any) []any { return []any{twin%s(%s)} }" % (nm, ", ".join("zrt.As[%s](in[%d])" % (t, j) for j, t in enumerate(ts)))
    kinds = [("direct", "", "%s(%s)" % (nm, va)), ("funcval", "f := %s" % nm, "f(%s)" % va), ("go", "", "%s(%s)" % (nm, va))]
    register('"%s"' % nm, nm, ts, [rt], kinds, 'Style: "leaf", Expect: %s,' % ex)

# ------------------------------------------------------------------ methods
RECVS = ["RSmall","RBig","RInt","RMap","RFunc","REmpty","RSlice"]
def gen_meth(i):
    nm = "M%d" % i
    rt = R.choice(RECVS)
    ptr = R.random() < 0.5
    ins = params(9); outs = [typ() for _ in range(R.choice([0,1,1,2,3]))]
    variadic = R.random() < 0.25
    if variadic: ins = ins[:6] + ["[]" + typ(1)]
    st = style()
    if rt in ("RMap","RFunc","RSlice") and ptr and R.random() < 0.5: ptr = False
    RT = ("*" if ptr else "") + rt
    full = "%s.%s" % ("(*%s)" % rt if ptr else rt, nm)
    names = ["r"] + ["a%d" % (j+1) for j in range(len(ins))]
    exported = R.random() < 0.7
    if not exported: nm = "m%d" % i; full = full.rsplit(".",1)[0] + "." + nm
    body = emit_body(full, st, names, outs, "r.%s(%s)" % (nm, argl(ins, variadic, 1)))
    L.append("func (r %s) %s(%s) %s {\n\t%s\n}" % (RT, nm, sig(ins, variadic, 1), outsig(outs), body))
    L.append("type I%s interface { %s(%s) %s }" % (nm, nm, sig(ins, variadic, 1), outsig(outs)))
    L.append("type E%s struct { Pad int; %s; Tail string }" % (nm, RT))
    va = vargs(len(ins), variadic, 1)
    kinds = [("direct", "", "v0.%s(%s)" % (nm, va)),
             ("expr", "f := %s" % full, "f(%s)" % vargs(len(ins)+1, variadic)),
             ("methodvalue", "f := v0.%s" % nm, "f(%s)" % va),
             ("iface", "var f I%s = v0" % nm, "f.%s(%s)" % (nm, va)),
             ("embedded", "var f I%s = E%s{1, v0, \"\"}" % (nm, nm), "f.%s(%s)" % (nm, va)),
             ("defer", "", "v0.%s(%s)" % (nm, va)), ("go", "", "v0.%s(%s)" % (nm, va))]
    if not ptr:
        kinds.append(("viaptr", "f := &v0", "f.%s(%s)" % (nm, va)))
        kinds.append(("ifaceptr", "var f I%s = &v0" % nm, "f.%s(%s)" % (nm, va)))
    register('"%s"' % full, full, [RT] + ins, outs, kinds, 'Recv: true, Style: "%s",' % st)

# ------------------------------------------------------------------ generics
TARGS = [("int","int"),("MyInt","int"),("string","string"),("MyStr","string"),("*PA","ptr"),("*PB","ptr"),("float64","float64"),
         ("Big200","Big200"),("Big700","Big700"),("Big2000","Big2000"),("GA","GA"),("GB","GA"),("[3]string","[3]string"),("uint8","uint8"),
         ("[]int","[]int"),("struct{}","struct{}"),("RSmall","RSmall"),("[1]int64","[1]int64"),("complex128","complex128"),("G64","G64"),("G128","G128"),("G100","G100"),
         ("map[string]int","map[string]int"),("func(int) int","func(int) int")]
def targ():
    if R.random() < 0.25:
        t = sized()
        return (t, t)
    return R.choice(TARGS)
def gtypes(tps):
    """parameter type using type parameters"""
    k = R.random()
    if k < 0.5: return R.choice(tps)
    if k < 0.6: return "[]" + R.choice(tps)
    if k < 0.65: return "*" + R.choice(tps)
    if k < 0.7: return "[2]" + R.choice(tps)
    if k < 0.75: return "map[int]" + R.choice(tps)
    if k < 0.8: return "struct { X %s; Y int8 }" % R.choice(tps)
    if k < 0.85: return sized() if R.random() < 0.5 else R.choice(["Big200","Big700","Big2000"])
    return typ(1, big=False)

def subst(t, m):
    import re
    return re.sub(r"\bT([01])\b", lambda x: m["T" + x.group(1)], t)

def gen_generic(i, ninst):
    nm = "G%d" % i
    tps = ["T0"] if R.random() < 0.6 else ["T0","T1"]
    ins = tps + [gtypes(tps) for _ in range(R.choice([0,1,2,3,5]))]
    outs = [gtypes(tps) for _ in range(R.choice([0,1,1,2,3]))]
    if len(tps) == 1 and R.random() < 0.3:   # no parameters; the type arguments are listed in the order of their use, so there is only one
        ins, outs = [], [R.choice(["T0", "int", "string", "error", "Big200"]) for _ in outs]
    variadic = R.random() < 0.2
    if variadic: ins.append("[]" + R.choice((tps if ins else []) + ["int","string"]))
    rec = R.random() < 0.3
    st = R.choice(["plain","plain","frame64","frame300","defer","loop"])
    method = R.random() < 0.45
    ptr = R.random() < 0.5
    zs = "; ".join("var z%d T%d" % (j, j) for j in range(len(tps)))
    types = "[]any{%s}" % ", ".join("z%d" % j for j in range(len(tps)))
    tn = "GT%d" % i
    def body(names, selfcall):
        b = [LOW % nm, zs, "ts := " + types]
        b += [x.replace('"%s"' % nm, 'zrt.GName("%s", ts)' % nm) for x in stylecode(nm, st)]
        b.append('s := zrt.EnterG(%s)' % ", ".join(['"%s"' % nm, "ts"] + names))
        if rec: b.append("if s.Recurse { %s%s }" % ("return " if outs else "", selfcall))
        for j, o in enumerate(outs):
            b.append("r%d, _ = s.Ret(%d).(%s)" % (j, j, o))
        b.append("_ = s")
        if outs: b.append("return")
        return "\n\t".join(b)
    tpl = ", ".join(tps)
    if method:
        pad = R.choice(["", "P [40]int64", "P [7]string", "P int8", "P [300]byte"])
        L.append("type %s[%s any] struct { V T0; %s }" % (tn, tpl, pad))
        RT = ("*" if ptr else "") + "%s[%s]" % (tn, tpl)
        L.append("func (r %s) %s(%s) %s {\n\t%s\n}" % (RT, nm, sig(ins, variadic, 1), outsig(outs),
                 body(["r"] + ["a%d" % (j+1) for j in range(len(ins))], "r.%s(%s)" % (nm, argl(ins, variadic, 1)))))
    else:
        L.append("func %s[%s any](%s) %s {\n\t%s\n}" % (nm, tpl, sig(ins, variadic), outsig(outs),
                 body(["a%d" % j for j in range(len(ins))], "%s[%s](%s)" % (nm, tpl, argl(ins, variadic)))))
    seen = set()
    for _ in range(ninst):
        ta = [targ() for _ in tps]
        if seen and R.random() < 0.5:   # a sibling sharing the code
            base = R.choice(sorted(seen))
            ta = [R.choice([x for x in TARGS if x[1] == dict((a, b) for a, b in TARGS).get(t)] or [(t, t)]) for t in base]
        key = tuple(a for a, _ in ta)
        if key in seen: continue
        seen.add(key)
        m = {"T%d" % j: a for j, (a, _) in enumerate(ta)}
        inst = ", ".join(key)
        ii = [subst(t, m) for t in ins]; oo = [subst(t, m) for t in outs]
        gname = 'zrt.GName("%s", []any{%s})' % (nm, ", ".join("*new(%s)" % k for k in key))
        extra = 'Generic: true, Shape: "%s{%s}", TypArgs: []reflect.Type{%s}, Style: "%s",' % (
            nm, ";".join(b for _, b in ta), ", ".join("zrt.TypeOf[%s]()" % k for k in key), st + ("/rec" if rec else "/info"))
        if method:
            RT = ("*" if ptr else "") + "%s[%s]" % (tn, inst)
            full = "(*%s[%s]).%s" % (tn, inst, nm) if ptr else "%s[%s].%s" % (tn, inst, nm)
            va = vargs(len(ii), variadic, 1)
            uid = "%d_%d" % (i, len(seen))
            L.append("type IG%s interface { %s(%s) %s }" % (uid, nm, sig(ii, variadic, 1), outsig(oo)))
            kinds = [("direct", "", "v0.%s(%s)" % (nm, va)), ("expr", "f := %s" % full, "f(%s)" % vargs(len(ii)+1, variadic)),
                     ("methodvalue", "f := v0.%s" % nm, "f(%s)" % va), ("iface", "var f IG%s = v0" % uid, "f.%s(%s)" % (nm, va)),
                     ("go", "", "v0.%s(%s)" % (nm, va))]
            register(gname, full, [RT] + ii, oo, kinds, "Recv: true, " + extra)
        else:
            full = "%s[%s]" % (nm, inst)
            va = vargs(len(ii), variadic)
            kinds = [("direct", "", "%s(%s)" % (full, va)), ("funcval", "f := %s" % full, "f(%s)" % va),
                     ("defer", "", "%s(%s)" % (full, va)), ("go", "", "%s(%s)" % (full, va))]
            register(gname, full, ii, oo, kinds, extra)

mkstructs(14)
for i in range(nfunc): gen_func(i)
for i in range(max(4, nfunc//10)): gen_leaf(i)
for i in range(nmeth): gen_meth(i)
for i in range(ngen): gen_generic(i, R.choice([1,2,3,4]))

with open(out, "w") as f:
    f.write('package zoo\n\nimport (\n\t"fmt"\n\t"reflect"\n\t"unsafe"\n\n\t"github.com/bytedance/mockey/verifh/zrt"\n)\n\n')
    f.write("var (\n\t_ fmt.Stringer\n\t_ reflect.Type\n\t_ unsafe.Pointer\n)\n\n")
    f.write("\n\n".join(L))
    for i in range(0, len(REG), 20):
        f.write("\n\nfunc init() {\n\t" + "\n\t".join(REG[i:i+20]) + "\n}\n")
