#!/usr/bin/env python3
"""Generates the types and lookup cases of the C14 workload: gen_getm.py SEED N OUT.

Every method and function field returns R naming its body, its receiver and its arguments. A case tells an instance, a name,
how to call the method directly, through an interface (exported ones) and through the function GetMethod returned, and which body
must run.
"""
import random, sys

seed, n, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
r = random.Random(seed)
L = []
def w(s=""): L.append(s)

SIGS = [  # parameters, call arguments, expression of the arguments in the body
    ("", "", '""'),
    ("a int", "%d", "fmt.Sprint(a)"),
    ("a string, b ...int", '"s%d", 4, 5', "fmt.Sprint(a, b)"),
    ("a [9]int64, b string, c float64", '[9]int64{%d, 3}, "x", 2.5', "fmt.Sprint(a, b, c)"),
    ("a any, b *int, c func() int, d []byte", '%d, nil, func() int { return 7 }, []byte{1}', "fmt.Sprint(a, b == nil, c(), d)"),
    ("a ...any", '%d, "q"', "fmt.Sprint(a...)"),
]
def ptypes(sig):
    ps = SIGS[sig][0]
    return ", ".join(p.split(" ", 1)[1] for p in ps.split(", ")) if ps else ""
def call(sig, k):
    a = SIGS[sig][1]
    return a % k if "%d" in a else a

LET = "abcdefghijklmnopqrstuvwxyz_0123456789"
used = set()
def name(exported, prefix_of=None):
    while True:
        k = r.choice([1, 2, 3, 5, 8, 20, 60, 126, 127, 128, 129, 200, 300]) if r.random() < .5 else r.randint(1, 12)
        if prefix_of and r.random() < .5:
            s = prefix_of + "".join(r.choice(LET) for _ in range(r.randint(1, 3)))
        else:
            first = r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") if exported else r.choice("abcdefghijklmnopqrstuvwxyz" + "_é世")
            s = first + "".join(r.choice(LET + "AZ世") for _ in range(k - 1))
        if s in ("_", "go", "if", "do", "case", "chan", "for", "func", "map", "type", "var", "import", "return", "range", "select", "switch", "struct",
                 "default", "defer", "else", "const", "break", "goto", "package", "interface", "continue", "fallthrough", "tag"): continue
        return s

class T: pass
types = []
ids = 0
KINDS = ["struct"] * 7 + ["int16", "string", "[]int", "func() int", "[3]string", "*struct-ptr", "chan int", "float64", "map[string]int"]
LITS = {"int16": "{t}({k})", "string": '{t}("t{k}")', "[]int": "{t}{{{k}, 2}}", "func() int": "{t}(func() int {{ return {k} }})",
        "[3]string": '{t}{{"t{k}", "b"}}', "chan int": "make({t}, {k}+1)", "float64": "{t}({k}.5)", "map[string]int": '{t}{{"a": {k}}}'}
# text identifying a receiver
TAGS = {"int16": "fmt.Sprint(int16({x}))", "string": "string({x})", "[]int": "fmt.Sprint([]int({x}))", "func() int": "fmt.Sprint({x}())",
        "[3]string": "fmt.Sprint([3]string({x}))", "chan int": "fmt.Sprint(cap({x}))", "float64": "fmt.Sprint(float64({x}))",
        "map[string]int": "fmt.Sprint(map[string]int({x}))"}

def newtype(i):
    global ids
    t = T()
    t.name = ("T%d" if r.random() < .5 else "t%d") % i
    t.kind = r.choice([k for k in KINDS if k != "*struct-ptr"])
    t.embeds = []      # (field name, type, form)   form: value, pointer, iface-value, iface-pointer
    t.methods = []     # dicts
    t.fields = []      # function fields
    names = set()
    prev = None
    if t.kind == "struct" and types:
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            c = r.choice(types)
            if any(e[1] is c for e in t.embeds): continue
            form = r.choice(["value", "pointer", "value", "iface-value", "iface-pointer", "nil-pointer", "nil-iface"])
            if c.kind != "struct": form = "value"
            if form == "nil-iface" and not ifacemethods(c, False): form = "nil-pointer"
            if form.startswith("iface") and not ifacemethods(c, form == "iface-pointer"): form = "value"
            if depth(c) > 3: continue
            t.embeds.append((c.name, c, form))
    k = r.choice([1, 2, 3, 4, 8, 20]) if r.random() < .95 else 300
    inherited = [m["name"] for e in t.embeds for m in allmethods(e[1])]
    for _ in range(k):
        exported = r.random() < .5
        nm = r.choice(inherited) if inherited and r.random() < .1 else name(exported, prev)
        if nm in names or nm in [e[0] for e in t.embeds]: continue
        names.add(nm); prev = nm
        ids += 1
        t.methods.append(dict(name=nm, exported=nm[0].isupper() and nm[0].isascii(), ptr=r.random() < .5, sig=r.randrange(len(SIGS)), id=ids, t=t))
    if t.kind == "struct":
        for _ in range(r.choice([0, 0, 1, 2])):
            nm = name(r.random() < .5, prev)
            if nm in names or nm in inherited or nm in [e[0] for e in t.embeds]: continue
            names.add(nm); ids += 1
            t.fields.append(dict(name=nm, sig=r.randrange(len(SIGS)), id=ids, t=t, form=r.choice(["named", "plain", "capture", "func"])))
    types.append(t)

def depth(t): return 1 + max([depth(e[1]) for e in t.embeds] or [0])
def allmethods(t): return t.methods + [m for e in t.embeds for m in allmethods(e[1])]
def ifacemethods(t, ptr): return [m for m in t.methods if m["exported"] and (ptr or not m["ptr"])]

for i in range(n): newtype(i)

def emit():
    for t in types:
        if t.kind == "struct":
            w("type %s struct {" % t.name)
            w("\ttag string")
            for f, c, form in t.embeds:
                if form == "value": w("\t" + c.name)
                elif form in ("pointer", "nil-pointer"): w("\t*" + c.name)
                else: w("\tI%s%s" % (c.name, "p" if form == "iface-pointer" else "v"))
            for f in t.fields:
                w("\t%s %s" % (f["name"], "Fn%d" % f["sig"] if f["form"] == "named" else "func(%s) R" % ptypes(f["sig"])))
            w("}\n")
        else:
            w("type %s %s\n" % (t.name, t.kind))
        for m in t.methods:
            x = "*x" if m["ptr"] and t.kind != "struct" else "x"
            tag = "x.tag" if t.kind == "struct" else TAGS[t.kind].format(x="(*x)" if m["ptr"] else "x")
            w("func (x %s%s) %s(%s) R { return run(%d, %s, %s) }" % ("*" if m["ptr"] else "", t.name, m["name"], SIGS[m["sig"]][0], m["id"], tag, SIGS[m["sig"]][2]))
        for p in (False, True):
            w("\ntype I%s%s interface {" % (t.name, "p" if p else "v"))
            for m in ifacemethods(t, p): w("\t%s(%s) R" % (m["name"], ptypes(m["sig"])))
            w("}\n")
        for f in t.fields:
            if f["form"] == "func": w("func fld%d(%s) R { return run(%d, \"\", %s) }" % (f["id"], SIGS[f["sig"]][0], f["id"], SIGS[f["sig"]][2]))
        w("func new%s(k string) %s {" % (t.name, t.name))
        if t.kind == "struct":
            w("\tx := %s{tag: k}" % t.name)
            for f, c, form in t.embeds:
                if form == "value": w("\tx.%s = new%s(k + \"e\")" % (c.name, c.name))
                elif form == "pointer": w("\tx.%s = ptr(new%s(k + \"e\"))" % (c.name, c.name))
                elif form == "iface-value": w("\tx.I%sv = new%s(k + \"e\")" % (c.name, c.name))
                elif form == "iface-pointer": w("\tx.I%sp = ptr(new%s(k + \"e\"))" % (c.name, c.name))
            for f in t.fields:
                if f["form"] == "func": w("\tx.%s = fld%d" % (f["name"], f["id"]))
                elif f["form"] == "capture": w("\tx.%s = func(%s) R { return run(%d, k, %s) }" % (f["name"], SIGS[f["sig"]][0], f["id"], SIGS[f["sig"]][2]))
                else: w("\tx.%s = func(%s) R { return run(%d, \"\", %s) }" % (f["name"], SIGS[f["sig"]][0], f["id"], SIGS[f["sig"]][2]))
            w("\treturn x")
        else:
            w("\treturn " + LITS[t.kind].format(t=t.name, k="len(k)").replace('"tlen(k)"', '"t" + k').replace("len(k).5", "float64(len(k))"))
        w("}\n")

def efield(e): return e[1].name if e[2] in ("value", "pointer", "nil-pointer") else "I%s%s" % (e[1].name, "p" if e[2] == "iface-pointer" else "v")

def nested(t, nm, path, held):
    """The method GetMethod finds for an exported name: embedded ones first, in the order of the fields. held: through which kind of
    holder t is reached. Returns (method, path, holder), "wrapper" or None"""
    if held == "iface-pointer" and nm not in [m["name"] for m in t.methods] and nm in [m["name"] for m in allmethods(t)]:
        return "wrapper"   # the method table of the pointer type has a wrapper of the promoted method
    if t.kind == "struct" and held != "iface-pointer":
        for e in t.embeds:
            if e[2].startswith("nil"): continue
            x = nested(e[1], nm, path + "." + efield(e) + (".(%s)" % e[1].name if e[2] == "iface-value" else ".(*%s)" % e[1].name if e[2] == "iface-pointer" else ""), e[2])
            if x: return x
    for m in t.methods:
        if m["name"] == nm and m["exported"]:
            return m, path, held
    return None

def go_select(t, nm):
    """depths and owners Go's selector rules see: list of (depth, owner type, expr ok)"""
    level = [(t, "value")]
    while level:
        hits, nxt = [], []
        for x, form in level:
            if form.endswith("iface"):
                form = "iface-value"
            if form.startswith("iface"):
                if any(m["name"] == nm for m in ifacemethods(x, form == "iface-pointer")): hits.append(x)
                continue
            if any(m["name"] == nm for m in x.methods) or any(f["name"] == nm for f in x.fields): hits.append(x)
            for e in x.embeds:
                if e[0] == nm: hits.append(None)
                nxt.append((e[1], e[2]))
        if hits: return hits
        level = nxt
    return []

cases = 0
def emitcases():
    global cases
    w("func init() {")
    w("\tCases = append(Cases,")
    for t in types:
        for ptr in (False, True):
            names = []
            for m in allmethods(t):
                if m["name"] not in names: names.append(m["name"])
            if len(names) > 60: names = r.sample(names, 60)
            for nm in names:
                owners = [m for m in allmethods(t) if m["name"] == nm]
                found = None
                if owners[0]["exported"]:
                    x = nested(t, nm, "x", "pointer" if ptr else "value")
                    if x is None or x == "wrapper": continue
                    m, path, held = x
                    if m["sig"] is None: continue
                    # through a pointer in an interface only the methods of the pointer type are looked at
                    wrapper = held == "iface-pointer" and not m["ptr"]
                else:
                    own = [m for m in t.methods if m["name"] == nm]
                    if not own: continue       # promoted unexported methods: known finding
                    m, path, held, wrapper = own[0], "x", "pointer" if ptr else "value", False
                    if m["ptr"] != ptr: continue   # not in the type's own method table, or only a wrapper is (known finding)
                    if t.kind == "map[string]int" and not ptr: continue
                if wrapper: continue
                D = m["t"].name
                k = r.randint(0, 99)
                a = call(m["sig"], k)
                pt = ptypes(m["sig"])
                # a receiver for the function: the value inside the instance
                if m["ptr"]:
                    if held in ("pointer", "iface-pointer"): rcv = path
                    elif held == "value":
                        rcv = "&" + path
                        if ".(" in path and not path.endswith(")"):   # field of a value held by an interface
                            last = path.rfind(".(")
                            if not path[last:].startswith(".(*"): rcv = "ptr(%s)" % path
                    else: rcv = "ptr(%s)" % path
                    if ptr is False and path == "x": rcv = "&x"
                    ft = "func(*%s%s) R" % (D, ", " + pt if pt else "")
                else:
                    rcv = "*" + path if held == "pointer" else path
                    if held == "iface-pointer": rcv = "*(%s)" % path
                    ft = "func(%s%s) R" % (D, ", " + pt if pt else "")
                make = "ptr(new%s(\"i\"))" % t.name if ptr else "new%s(\"i\")" % t.name
                args = (", " + a) if a else ""
                # does a direct call on the instance reach the method found?
                sel = go_select(t, nm)
                d = "nil"
                if len(sel) == 1 and sel[0] is m["t"] and not (m["ptr"] and held == "iface-value"):
                    okaddr = not (m["ptr"] and ".(" in path and not path.endswith(")") and held == "value")
                    if okaddr: d = "func() R { return x.%s(%s) }" % (nm, a)
                inner = "func() R { return (%s).%s(%s) }" % ("ptr(%s)" % path if rcv.startswith("ptr(") else path, nm, a)
                via = "nil"
                if m["exported"]:
                    via = "func() R { return any(%s).(interface{ %s(%s) R }).%s(%s) }" % (rcv, nm, pt, nm, a)
                shape = "%s/%s/depth%d/%s%s/len%d/%s" % (t.kind, "ptr" if ptr else "val", path.count(".") - path.count(".("), "exp" if m["exported"] else "unexp", "*" if m["ptr"] else "", len(nm.encode()), held)
                # a nil pointer has the methods of its type as well (those with value receiver and promoted ones are known finding K12)
                inst = "x"
                if ptr and path == "x" and m["ptr"] and r.random() < .3: inst, shape = "(*%s)(nil)" % t.name, shape + "/nil"
                w("\t\tfunc() Case { x := %s; return Case{Name: %s, Type: %s, Shape: %s, Inst: %s, ID: %d, Direct: %s, Inner: %s, Via: %s," % (
                    make, go(nm), go(t.name), go(shape), inst, m["id"], d, inner, via))
                w("\t\t\tFunc: func(f any) R { return f.(%s)(%s%s) }, Hook: func(id int) any { return %s { return R{ID: id} } }, FT: reflect.TypeOf((func(%s) R)(nil)) } }()," % (
                    ft, rcv, args, ft, pt))
                cases += 1
            for f in t.fields + promoted(t):
                k = r.randint(0, 99)
                a = call(f["sig"], k)
                pt = ptypes(f["sig"])
                make = "ptr(new%s(\"i\"))" % t.name if ptr else "new%s(\"i\")" % t.name
                ft = ("Fn%d" % f["sig"]) if f["form"] == "named" else "func(%s) R" % pt
                w("\t\tfunc() Case { x := %s; return Case{Name: %s, Type: %s, Shape: %s, Inst: x, ID: %d, Direct: func() R { return x.%s(%s) }, Field: true," % (
                    make, go(f["name"]), go(t.name), go("field/%s/%s%s" % (f["form"], ptr, "" if f in t.fields else "/promoted")), f["id"], f["name"], a))
                w("\t\t\tFunc: func(f any) R { return f.(%s)(%s) }, Hook: func(id int) any { return func(%s) R { return R{ID: id} } } } }()," % (ft, a, pt))
                cases += 1
            # names that do not exist
            have = {m["name"] for m in allmethods(t)} | {f["name"] for x in closure(t) for f in x.fields}
            for _ in range(3):
                base = r.choice(sorted(have)) if have else "x"
                bad = r.choice([base + "x", base[:-1] or "q", base.swapcase(), "Missing", "missing", "tag"])
                if bad in have: continue
                w("\t\tCase{Name: %s, Type: %s, Shape: \"missing\", Inst: %s, Missing: true}," % (go(bad), go(t.name), "ptr(new%s(\"i\"))" % t.name if ptr else "new%s(\"i\")" % t.name))
                cases += 1
    # types without name have no methods (besides those of what they embed); what lies behind them in memory must not count
    for i in range(len(types)):
        ty = unnamed(0)
        for bad in r.sample(["a", "x", "missing", "len", "string", "m%d" % i, "Missing", "T%d" % i], 2):
            w("\t\tCase{Name: %s, Type: \"unnamed\", Shape: %s, Inst: *new(%s), Missing: true}," % (go(bad), go("missing/unnamed/" + ty[:3].strip("[0123456789")), ty))
            cases += 1
    w("\t)")
    w("}")

def unnamed(d):
    elem = lambda: unnamed(d + 1) if d < 3 and r.random() < .6 else r.choice(["int", "string", "byte", "any", "float64", "bool", "error", "uint16", "complex64"])
    k = r.randrange(8 if d else 7)
    if k == 0: return "[]" + elem()
    if k == 1: return "[%d]%s" % (r.randint(0, 70), elem())
    if k == 2: return "map[%s]%s" % (r.choice(["int", "string", "[2]byte", "any", "struct{ a, b int }"]), elem())
    if k == 3: return r.choice(["chan ", "<-chan ", "chan<- "]) + r.choice(["int", "string", "struct{}", "[]byte"])
    if k == 4: return "func(%s) %s" % (", ".join(elem() for _ in range(r.randint(0, 3))), r.choice(["", elem(), "(%s, %s)" % (elem(), elem())]))
    if k == 5: return "*" + elem()
    if k == 6: return "struct{ %s }" % "; ".join("%s%d %s" % (r.choice(["f", "F"]), j, elem()) for j in range(r.randint(0, 4)))
    return "interface{ %s() int }" % r.choice(["A", "b"])

def promoted(t):
    """function fields promoted from embedded structs, unambiguous and not through nil pointers, whose name is no method anywhere"""
    out, path = [], [(t, True)]
    level = [(t, True)]
    while level:
        nxt = []
        for x, ok in level:
            for e in x.embeds:
                if e[2] in ("value", "pointer", "nil-pointer"): nxt.append((e[1], ok and e[2] != "nil-pointer"))
        for x, ok in nxt:
            for f in x.fields:
                sel = go_select(t, f["name"])
                if ok and len(sel) == 1 and sel[0] is x and not any(m["name"] == f["name"] for y in closure(t) for m in y.methods) and not any(
                        z is not x and any(g["name"] == f["name"] for g in z.fields) for z in closure(t)) and f not in out: out.append(f)
        level = nxt
    return out

def closure(t): return [t] + [x for e in t.embeds for x in closure(e[1])]
def go(s): return '"' + s + '"'

w("// Code generated by gen_getm.py. DO NOT EDIT.\n\npackage gm\n\nimport (\n\t\"fmt\"\n\t\"reflect\"\n)\n")
for i in range(len(SIGS)): w("type Fn%d func(%s) R" % (i, ptypes(i)))
w("\nvar _ = []any{reflect.TypeOf, fmt.Sprint}\n")
emit()
emitcases()
open(out, "w").write("\n".join(L) + "\n")
