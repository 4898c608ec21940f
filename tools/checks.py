"""What each check runs."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from run import toolchain, SEED, THOROUGH, CONFIGS, GC, ENV, VERIF, REPO, Inconclusive, known_findings, first_line

BASE_ASSUME = [
    "linux/amd64, go 1.23 (parts also go 1.24 and 1.25), built with -gcflags 'all=-l -N' as the library requires",
    "the reference model in harness/model.go states the property correctly",
]

SEQ_RULE = ("histories of random operations (mocking generated functions, methods and generics, conditions, hooks, returns, scopes, "
            "releases, reconfigurations, calls in all forms) are run for real and compared step by step with a reference model; distinct: "
            "target, way of calling, number of stacked mocks, intercepted or not, panicking or not; unmocked calls count as trivial cases of the same history")

def missing(c, config):
    """the Go release, the processor or the C compiler of the configuration is not there"""
    if toolchain(config) is not None: return False
    c.counts["Go releases not installed or processors missing"] = c.counts.get("Go releases not installed or processors missing", 0) + 1
    return True

# Go releases the library works with besides the default one: they differ in the layout of goroutines and modules, the runtime helpers and the code of functions and wrappers
OTHERS = ("1.24", "1.25")

def other_releases(c, profile, n, shards=3, config="plain", releases=OTHERS):
    sequential(c, profile, n, shards=shards, configs=["%s@%s" % (config, v) for v in releases])

def sequential(c, profile, n, shards=8, configs=("plain",), env=None, zoos=1, timeout=400, tag=""):
    """n histories per shard"""
    if THOROUGH: n, zoos = n * 8, zoos * 3
    jobs = []
    for z in range(zoos):
        for cfg in configs:
            if missing(c, cfg): continue
            b = c.build(cfg, seed=SEED + 1000 * z)
            for s in range(shards):
                jobs.append(("%s histories (%s build)" % (profile, cfg), dict(
                    binary=b, profile=profile, seed=SEED * 100 + s + 7919 * z, n=n, env=env, timeout=timeout * (6 if THOROUGH else 1), tag=tag)))
    return c.jobs(jobs)

def simple(profile, n, releases=(), **kw):
    def f(c):
        sequential(c, profile, n, **kw)
        other_releases(c, profile, max(1, n // 3), releases=releases)
        return SEQ_RULE, BASE_ASSUME
    return f

def workload(c, name, n, shards=4, config="plain", env=None, timeout=300, scale=1, tag=""):
    """n rounds of a dedicated workload per shard"""
    if missing(c, config): return
    if THOROUGH: n = n * 8
    b = c.build(config)
    return c.jobs([("%s workload (%s build)" % (name, config), dict(
        binary=b, profile=name, seed=SEED * 100 + s, n=n, env=env, timeout=timeout * (6 if THOROUGH else 1), scale=scale, tag=tag)) for s in range(shards)])

CONC_RULE = ("; rounds of fixed mocks (conditions, hooks, returns, sequences, goroutine filters naming the callers, stacked scopes) called by 2-33 goroutines in all "
             "forms, on locked threads, from deep and fresh stacks, with collections in between; every result is compared with the model's, counters are sampled meanwhile")

def c01(c):
    sequential(c, "C01", 700)
    other_releases(c, "C01", 200)
    workload(c, "conc06", 15)
    return SEQ_RULE + CONC_RULE, BASE_ASSUME + ["arguments do not point into the caller's stack (known finding K6)"]

STD_RULE = ("; 138 functions and methods of the standard library are called with fixed arguments unmocked, passed through (condition, goroutine filter), as origin, mocked and released at random stack depths: "
            "equal results, panics and effects on the arguments")

def c02(c):
    sequential(c, "C02", 500)
    workload(c, "std02", 10, shards=4)
    sequential(c, "C02", 100, shards=3, configs=("cover", "pie", "asan"))
    if not missing(c, "plain@v3"):
        sequential(c, "C02", 100, shards=3, configs=("plain@v3",))
        workload(c, "std02", 4, shards=2, config="plain@v3")
    other_releases(c, "C02", 150)
    for v in OTHERS:
        workload(c, "std02", 4, shards=2, config="plain@" + v)
    return SEQ_RULE + STD_RULE, BASE_ASSUME

SIZE_RULE = ("; two generic functions and two methods instantiated for about 110 types of boundary and random sizes (1-1120 bytes of words, bytes, strings, interfaces, structs), called directly and "
             "by value, on old and new stacks, unmocked, mocked, passed through, as origin and released: results, arguments seen by conditions, type argument of the original and of the GenericInfo")

def c13(c):
    sequential(c, "C13", 100, configs=("plain", "race"))
    other_releases(c, "C13", 40)
    sequential(c, "C13", 30, shards=3, configs=("cover", "pie", "asan"))
    for k in range(4 if THOROUGH else 1):
        for conf in ["plain", "race", "cover", "pie", "plain@v3", "asan"] + ["plain@" + v for v in OTHERS] + (["race@" + v for v in OTHERS] if THOROUGH else []):
            if missing(c, conf): continue
            b = c.build(conf, seed=SEED + k, sizes=80)
            c.jobs([("sizes13 workload (%s build)" % conf, dict(binary=b, profile="sizes13", seed=SEED * 100 + s + k * 10, n=4 if conf == "plain" else 1, timeout=600, tag="k%d" % k)) for s in range(4)])
    return SEQ_RULE + SIZE_RULE, BASE_ASSUME

TINY_RULE = "; 24 functions of 15-30 bytes that follow each other in memory closely are mocked and released in random histories, all of them called after every operation"

def c04(c):
    sequential(c, "C04", 200)
    other_releases(c, "C04", 66)
    workload(c, "tiny", 1000, shards=4)
    workload(c, "tiny", 400, shards=2, config="stw")
    return SEQ_RULE + TINY_RULE, BASE_ASSUME

def c05(c):
    sequential(c, "C05", 150)
    workload(c, "tiny", 400, shards=2)
    b = c.build("plain")
    c.jobs([("cycles", dict(binary=b, profile="cycles05", seed=SEED * 100 + s, n=11, frm=11 * s, timeout=600)) for s in range(9 if THOROUGH else 3)])
    return SEQ_RULE + ("; the complete machine code, all protections and the number of mappings are compared after operations; 11 kinds of mock and release cycles (returns, origin, generics, rejected "
                       "requests, panics, scopes, variables...) are repeated 1500 times and heap objects, heap bytes, mappings, executable pages, goroutines and open files must not grow"), BASE_ASSUME

def c06(c):
    sequential(c, "C06", 200)
    workload(c, "conc06", 25)
    return SEQ_RULE + CONC_RULE, BASE_ASSUME

def c07(c):
    sequential(c, "C07", 150)
    workload(c, "seq07", 40, shards=8)
    return SEQ_RULE + ("; rounds of a sequence of distinguishable tuples (random lengths and times) drawn by 1-24 goroutines: exact multiset of values and an order of the "
                       "calls consistent with their recorded real time in which the k-th call gets the k-th position"), BASE_ASSUME

def c08(c):
    sequential(c, "C08", 200)
    workload(c, "conc08", 20)
    workload(c, "gid08", 30, shards=2)
    workload(c, "bigid08", 1, shards=6)
    for v in OTHERS:
        workload(c, "gid08", 10, shards=2, config="plain@" + v)
        workload(c, "bigid08", 1, shards=2, config="plain@" + v)
        workload(c, "conc08", 5, shards=2, config="plain@" + v)
    return SEQ_RULE + CONC_RULE + "; GetGoroutineId is compared with the id in runtime.Stack in up to 3000 live goroutines, finalizers, timers, after panics, stack growth and thread changes, and with ids of up to 62 bits (the id generator of the runtime is moved on) which agree in 8-62 bits", BASE_ASSUME

def c11(c):
    sequential(c, "C11", 120)
    workload(c, "rejects11", 11, shards=3)
    return SEQ_RULE + "; 11 kinds of rejected requests are made 1500 times each, after which memory, mappings, goroutines and files may not have grown", BASE_ASSUME

def c15(c):
    env = {"GODEBUG": "clobberfree=1"}
    sequential(c, "C15", 60, env=env)
    workload(c, "gc15", 12, shards=8, env=env)
    workload(c, "gc15", 6, shards=4, env=env, config="plain@1.25")
    workload(c, "gc15", 6, shards=4, config="asan")
    if not missing(c, "asan"): sequential(c, "C15", 25, shards=4, configs=("asan",))
    return SEQ_RULE + ("; freed memory is overwritten (clobberfree) and collections are forced in hooks, conditions and originals; rounds of pointer-rich arguments, results and "
                       "captured variables checked for content, on small and deep stacks, with nothing but the mock referring to them, and finalizers telling what is collected"), BASE_ASSUME + [
        "arguments do not point into the caller's stack (known finding K6)"]

def c14(c):
    for z in range(24 if THOROUGH else 3):
        for cfg in (("plain", "plain@1.24"), ("race", "plain@1.25"), ("plain", "pie"))[z % 3]:
            if missing(c, cfg): continue
            b = c.build(cfg, seed=SEED + 1000 * z, size=(1, 1, 1), types=60)
            c.jobs([("getm14 workload (%s build)" % cfg, dict(binary=b, profile="getm14", seed=SEED * 100 + s, n=3 if THOROUGH else 1, timeout=300)) for s in range(3)])
    return ("generated types of all kinds (embedding by value, pointer and interface to depth 4, overrides, up to 300 methods, names up to 900 bytes that are prefixes of each "
            "other, function fields with and without captured variables): the function GetMethod returns is called and compared with the direct call, mocked, and called directly, on the "
            "receiver and through an interface, while other methods are called; names that do not exist must panic; distinct: kind of type, instance, depth, receiver, name length"), BASE_ASSUME[:1] + [
        "methods promoted through nil pointers and value methods of nil pointers are left out (K12)", "method types of unexported methods are kept by the linker"]

def races(c, what, prefix):
    """turns race reports into violations"""
    n = 0
    d = os.path.dirname(prefix)
    for f in sorted(os.listdir(d)):
        if not f.startswith(os.path.basename(prefix) + "."): continue
        t = open(os.path.join(d, f), errors="replace").read()
        for r in t.split("=================="):
            if "WARNING: DATA RACE" not in r: continue
            n += 1
            if n <= 3:
                m = re.findall(r"^  (\S+)\(", r, re.M)
                c.violations.append(("race", "%s: data race: %s" % (what, " / ".join(m[:4])), r))
    return n

def c16(c):
    for name, n, sh in (("conc06", 12, 4), ("conc08", 10, 3), ("seq07", 15, 3)):
        p = os.path.join(c.dir, "race-" + name)
        workload(c, name, n, shards=sh, config="race", env={"GORACE": "log_path=%s halt_on_error=0 exitcode=66 history_size=3" % p})
        c.counts["race reports"] = c.counts.get("race reports", 0) + races(c, name, p)
    return "race-detector builds" + CONC_RULE + "; a case is distinct by target, form of call, number of stacked mocks, outcome and number of goroutines", BASE_ASSUME + [
        "the Go race detector reports the races of the executions seen (happens-before, last accesses)", "mocks with Origin are left out (known finding K5)"]

def c17(c):
    n = 160 if THOROUGH else 20
    b = c.build("stw", size=(160, 10, 10))
    c.jobs([("stw17 workload (stw build)", dict(binary=b, profile="stw17", seed=SEED * 100 + s, n=n, timeout=600 if THOROUGH else 300, budget=None if THOROUGH else 75)) for s in range(8)], par=4)
    for v in OTHERS:
        if missing(c, "stw@" + v): continue
        b = c.build("stw@" + v, size=(160, 10, 10))
        c.jobs([("stw17 workload (stw build, go%s)" % v, dict(binary=b, profile="stw17", seed=SEED * 100 + s, n=n // 2, timeout=600 if THOROUGH else 300, budget=None if THOROUGH else 75)) for s in range(4)], par=4)
    return ("rounds of mocking and releasing functions in a stop-the-world build while 2-8 busy goroutines run other functions of the same pages, system calls, collections, "
            "channels, panics and stack growth, all with checked results; 1-6 other goroutines call the target after each change and must see it; calls are held (spinning or blocked) inside "
            "originals, hooks and passed-through originals across mocking and releasing and must finish in what they entered; distinct: target, busy goroutines, callers, form of the held call"), [
        "linux/amd64, go 1.23-1.25, -tags mockey_stw -ldflags=-checklinkname=0", "no goroutine is inside the first 12 bytes of a target while it is written (known finding K8)"]

def c18(c):
    n = 6000
    workload(c, "asm18", n, shards=6)
    workload(c, "asm18", n // 2, shards=2, config="stw")
    workload(c, "std02", 3, shards=2, config="race")
    workload(c, "asm18", n // 4, shards=2, config="plain@1.24")
    try: near = c.build("plain", pkg="./cmd/near", src=c.zoo(SEED, (60, 25, 20)))
    except Inconclusive: near, c.counts["hooks at chosen addresses left out: internal/monkey has another interface"] = None, 1
    if near: c.jobs([("hooks at chosen addresses", dict(binary=near, profile="near", seed=SEED * 100 + s, n=4000 * (5 if THOROUGH else 1), timeout=300)) for s in range(4)])
    return ("random machine-code functions (50 classes of integer, SSE2, stack and memory instructions, some also AVX, BMI and others a disassembler may not know, loops and jumps after the head, all integer and some XMM arguments and results) in mapped pages "
            "at low, high, near and far addresses, with heads at, before and across page boundaries and at the end of a mapping: unmocked, hooked, passed through, through Origin and released "
            "they are compared with a pristine copy; a function is hooked by closures at chosen addresses (boundaries of powers of two, near, low and far); bytes and protections of the pages are checked in every state; functions returning within 12 bytes must be rejected, and patched with the unsafe "
            "option; distinct: instruction class in the head (crossing or not), offset of the return, page offset, region"), BASE_ASSUME[:1] + [
        "heads consist of position-independent instructions (known finding K1: RIP-relative operands)"]

FLAGS = [  # build flags, whether the whole program is built without inlining and optimization (None: not specified)
    ([], False), (["-gcflags=all=-N"], False), (["-gcflags=all=-l=4"], False), (["-race"], False), (["-buildmode=pie"], False), (["-trimpath", "-ldflags=-s -w"], False),
    (["-tags=mockey_stw", "-ldflags=-checklinkname=0"], False), (["-gcflags=all=-d=ssa/check/off"], False),
    ([GC], True), (["-gcflags=all=-N -l"], True), ([GC, "-race"], True), ([GC, "-buildmode=pie"], True), ([GC, "-trimpath", "-ldflags=-s -w"], True),
    ([GC, "-tags=mockey_stw", "-ldflags=-checklinkname=0"], True), (["-gcflags=all=-l"], None), (["-gcflags=-N -l"], None),
]
FLAGS_MORE = [(["-race", "-gcflags=all=-N"], False), (["-race", "-buildmode=pie"], False), (["-asan"], False), (["-cover"], False), ([GC, "-cover"], True), ([GC, "-asan"], True),
              ([GC, "-race", "-tags=mockey_stw", "-ldflags=-checklinkname=0"], True), (["-gcflags=all=-B"], False), (["-gcflags=all=-N -l -B"], True), (["-gcflags=all=-l -N -dwarf=false"], True)]

def c19(c):
    d = c.zoo(SEED, (1, 1, 1))
    flags = FLAGS + (FLAGS_MORE if THOROUGH else [])
    flags = [(fl, complete, "") for fl, complete in flags] + [(fl, complete, v) for v in OTHERS if not missing(c, "@" + v) for fl, complete in (FLAGS[0], FLAGS[8], FLAGS[13])]
    def build(a):
        i, (fl, _, v) = a
        outs = []
        for what, cmd in (("program", ["go", "build"]), ("test binary", ["go", "test", "-c"])):
            o = os.path.join(c.dir, "flags-%d-%s" % (i, what[:4]))
            r = subprocess.run(cmd + fl + ["-o", o, "./cmd/flags"], cwd=d, env=toolchain("@" + v), capture_output=True, text=True, timeout=600)
            if r.returncode: raise Inconclusive("building with %s failed:\n%s" % (fl, (r.stdout + r.stderr)[-3000:]))
            outs.append((what, o))
        return outs
    with ThreadPoolExecutor(4) as ex:
        bins = list(ex.map(build, enumerate(flags)))
    envs = [{}, {"MOCKEY_CHECK_GCFLAGS": "false"}, {"MOCKEY_CHECK_GCFLAGS": "true"}, {"MOCKEY_CHECK_GCFLAGS": ""}, {"MOCKEY_CHECK_GCFLAGS": "0"}, {"MOCKEY_DEBUG": "true"},
            {"MOCKEY_DEBUG": "true", "MOCKEY_CHECK_GCFLAGS": "false"}]
    for (fl, complete, v), outs in zip(flags, bins):
        for what, o in outs:
            for env in envs:
                if len(c.violations) >= 4: break # each may be a run that hangs
                e = dict(ENV); e.update(env)
                name = "%s built with %s%s, environment %s" % (what, " ".join(fl) or "no flags", v and " by go" + v, env)
                try: r = subprocess.run([o], env=e, cwd=c.dir, capture_output=True, text=True, timeout=60, errors="replace")
                except subprocess.TimeoutExpired:
                    c.violations.append(("startup", name + " hangs", "")); continue
                err = "\n".join(l for l in r.stderr.splitlines() if "GOCOVERDIR" not in l).strip()
                warned = "Mockey check failed" in err or "gcflags" in err
                detail = "exit code %d\nstdout:\n%s\nstderr:\n%s" % (r.returncode, r.stdout[-3000:], r.stderr[-3000:])
                effective = "effective: true" in r.stdout
                c.evals += 1
                c.keys.add(name)
                c.counts["starts with a warning" if warned else "starts without a warning"] = c.counts.get("starts with a warning" if warned else "starts without a warning", 0) + 1
                if len(c.samples) < 8: c.samples.append("%s: effective %s, warned %s" % (name, effective, warned))
                bad = None
                lines = [l for l in r.stdout.splitlines() if not l.startswith("[MOCKEY]")]
                if r.returncode != 7 or lines[-2:] not in (["effective: true", "after: 2"], ["effective: false", "after: 2"]): bad = "does not run on as it should"
                elif len(lines) != 2 and "MOCKEY_DEBUG" not in env: bad = "prints something of its own on standard output"
                elif complete and not effective: bad = "is built as required but the mock has no effect"
                elif env.get("MOCKEY_CHECK_GCFLAGS") == "false" and err: bad = "prints on standard error although the check is disabled"
                elif complete and err: bad = "prints on standard error although it is built as required"
                elif complete is False and env.get("MOCKEY_CHECK_GCFLAGS") != "false" and not warned: bad = "is built with inlining but there is no warning on standard error"
                elif warned and not ("gcflags" in err and "-N" in err and "-l" in err): bad = "has a warning that does not name the flags"
                elif not warned and err: bad = "prints something else on standard error"
                elif not effective and not warned and env.get("MOCKEY_CHECK_GCFLAGS") != "false" and complete is not None: bad = "has mocks without effect and no warning"
                if bad: c.violations.append(("startup", name + " " + bad, detail))
    return ("a program and a test binary that mock a small function and tell whether the mock took effect, built in %d flag combinations and started in %d environments; standard error, standard output "
            "and exit code are checked; distinct: flags, kind of binary, environment" % (len(flags), len(envs))), ["linux/amd64, go 1.23-1.25", "the flags are given for all packages"]

def c20(c):
    cfgs = ["plain", "race", "stw"] + (["pie"] if THOROUGH else [])
    shards, n = (8, 1500) if THOROUGH else (4, 120)
    bins = {cfg: c.build(cfg) for cfg in cfgs}
    modes = [("%s build%s" % (cfg, ", debug mode" if dbg else ""), bins[cfg], {"MOCKEY_DEBUG": "true"} if dbg else {}) for cfg in cfgs for dbg in (False, True)]
    # targets left out in any of the builds
    skip = set()
    for cfg in cfgs:
        r = c.run(bins[cfg], "excluded", 1, 1, tag="excl")
        if not r["report"] or not r["report"]["done"]: c.judge(r, "start of the %s build" % cfg); return "startup failed", BASE_ASSUME
        skip |= set(r["report"]["known"] or [])
    args = ["-skip", ";".join(sorted(skip))]
    def log(m, s): return os.path.join(c.dir, "events-%d-%d" % (m, s))
    jobs, idx = [], []
    for s in range(shards):
        for m, (name, b, env) in enumerate(modes):
            jobs.append(("C20 histories (%s)" % name, dict(binary=b, profile="C20", seed=SEED * 100 + s, n=n, env=env, timeout=600, tag="m%d" % m, args=args + ["-events", log(m, s)])))
            jobs.append(("C20 output histories (%s)" % name, dict(binary=b, profile="C20out", seed=SEED * 100 + s, n=n // 3, env=env, timeout=600, tag="m%d" % m, keep_stdout=True, slow_stdout=True,
                                                                  args=args + ["-events", log(m, s) + "o"] + (["-ticks"] if name.startswith("stw") else []))))
    res = c.jobs(jobs)
    if c.violations: return "histories failed", BASE_ASSUME
    for s in range(shards):
        for suffix in ("", "o"):
            ref = open(log(0, s) + suffix).read().splitlines()
            c.counts["events of the reference mode"] = c.counts.get("events of the reference mode", 0) + len(ref)
            for m in range(1, len(modes)):
                got = open(log(m, s) + suffix).read().splitlines()
                c.counts["event logs compared"] = c.counts.get("event logs compared", 0) + 1
                if got == ref: continue
                i = next((i for i, (a, b) in enumerate(zip(ref, got)) if a != b), min(len(ref), len(got)))
                c.violations.append(("difference", "the same history (seed %d) differs in the %s and the %s: line %d" % (SEED * 100 + s, modes[0][0], modes[m][0], i),
                    "%s:\n%s\n\n%s:\n%s" % (modes[0][0], "\n".join(ref[max(0, i - 20):i + 5]), modes[m][0], "\n".join(got[max(0, i - 3):i + 5]))))
    for (what, kw), r in zip(jobs, res):
        if not kw.get("keep_stdout"): continue
        out = open(r["base"] + ".stdout", errors="replace").read()
        debug = bool(kw["env"])
        own, k, ticks = 0, 0, 0
        for i, l in enumerate(out.split("\n")[:-1]):
            if l == "line %d" % (k + 1): k += 1
            elif l == "tick" and "-ticks" in kw["args"]: ticks += 1
            elif debug and l.startswith("[MOCKEY]") and "line %d" % (k + 1) not in l: own += 1
            else:
                c.violations.append(("output", "%s: output line %d is %r" % (what, i, l[:200]), "\n".join(out.split("\n")[max(0, i - 10):i + 5])))
                break
        else:
            if debug and own == 0: c.violations.append(("output", "%s: debug mode adds no line" % what, ""))
            if k != r["report"]["Sentinel"]: c.violations.append(("output", "%s: %d lines of the program are in its output instead of %d" % (what, k, r["report"]["Sentinel"]), out[-1000:]))
        c.counts["output lines of the program"] = c.counts.get("output lines of the program", 0) + k
        c.counts["lines printed by other goroutines"] = c.counts.get("lines printed by other goroutines", 0) + ticks
        c.counts["debug lines"] = c.counts.get("debug lines", 0) + own
        if r["stderr"].strip(): c.violations.append(("output", "%s prints on standard error" % what, r["stderr"][:2000]))
    return SEQ_RULE + ("; the same histories run in %d modes (plain, race detector, stop the world, each with and without MOCKEY_DEBUG=true) and their logs of events, results, panics, counters and variables are "
                       "compared line by line; standard output between marks of the program is checked to be empty or marked lines" % len(modes)), BASE_ASSUME + [
        "addresses and identities are not compared between modes", "targets with frames beyond 4096 bytes in one of the builds are left out of all (known finding K2)"]

def arm_build(c):
    """builds cmd/arm: the package inst with its ARM sources, compiled for this machine, with a disassembler that shows ARM code in the runtime helpers"""
    d = os.path.join(c.dir, "arm")
    shutil.copytree(c.zoo(SEED, (60, 25, 20)), d)
    arch = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", "golang.org/x/arch"], cwd=d, env=ENV, capture_output=True, text=True, check=True).stdout.strip()
    shutil.copytree(arch, os.path.join(d, "archcopy"))
    subprocess.run(["chmod", "-R", "u+w", os.path.join(d, "archcopy")], check=True)
    asm = os.path.join(d, "archcopy", "arm64", "arm64asm")
    t = open(os.path.join(asm, "decode.go")).read()
    open(os.path.join(asm, "decode.go"), "w").write(t.replace("\nfunc Decode(", "\nfunc decodeARM("))
    shutil.copy(os.path.join(d, "cmd", "arm", "arm64asm_wrap.go.txt"), os.path.join(asm, "verif_wrap.go"))
    open(os.path.join(asm, "verif.s"), "w").close()
    open(os.path.join(d, "go.mod"), "a").write("\nreplace golang.org/x/arch => ./archcopy\n")
    inst = os.path.join(REPO, "internal/monkey/inst")
    rep = {}
    for f in os.listdir(inst):
        if f.endswith("_test.go"): continue
        if re.search(r"_amd64\.(go|s)$", f): rep[os.path.join(inst, f)] = ""
        m = re.match(r"(.*)_arm64(\.go|\.s)$", f)
        if m: rep[os.path.join(inst, m.group(1) + "_zzarm" + m.group(2))] = os.path.join(inst, f)
    json.dump({"Replace": rep}, open(os.path.join(d, "overlay.json"), "w"))
    def go(args, env={}):
        e = dict(ENV); e.update(env)
        r = subprocess.run(["go", "build"] + args, cwd=d, env=e, capture_output=True, text=True, timeout=800)
        if r.returncode: raise Inconclusive("building for ARM failed:\n" + (r.stdout + r.stderr)[-3000:])
    b, elf = os.path.join(c.dir, "arm-driver"), os.path.join(c.dir, "arm-zoo")
    go(["-tags=verifarm", "-overlay", os.path.join(d, "overlay.json"), "-o", b, "./cmd/arm"])
    return b, d, go

def c21(c):
    b, d, go = arm_build(c)
    for z in range(12 if THOROUGH else 2):
        elf = os.path.join(c.dir, "arm-zoo-%d" % z)
        subprocess.run([sys.executable, os.path.join(d, "gen_zoo.py"), str(SEED + 50 * z)] + ["10", "10", "50"] + [os.path.join(d, "zoo", "zoo_gen.go")], check=True)
        go([GC, "-o", elf, "./cmd/zooonly"], {"GOARCH": "arm64", "CGO_ENABLED": "0"})
        c.jobs([("ARM code checks", dict(binary=b, profile="arm", seed=SEED * 100 + 10 * z + s, n=20 if THOROUGH else 2, args=["-elf", elf], timeout=800)) for s in range(4)])
    return ("the ARM sources of internal/monkey/inst compiled for this machine: generated branches for all values of each 16-bit field and random 64-bit addresses are run by an interpreter (destination, context "
            "register, no other argument, saved or memory location touched); the search for the shared implementation is run on synthetic code at random and extreme addresses and distances with calls of and next to the "
            "runtime helpers, and on the wrappers of programs the Go compiler generates for ARM; distinct: address prefix, distance class, wrapper"), [
        "the ARM instructions are interpreted as the interpreter in harness/cmd/arm does", "nothing is run on an ARM machine"]

PLATFORMS = (("linux", "amd64"), ("linux", "arm64"), ("darwin", "amd64"), ("darwin", "arm64"))

def c22(c):
    # the assembly of every platform, as it is linked into programs
    d = c.zoo(SEED, (60, 25, 20))
    drv = c.build("plain", pkg="./cmd/asmw", src=d, flags=["-tags=verifasmw"])
    todo = [(o, a, v) for o, a in PLATFORMS for v in ("",) + OTHERS if not missing(c, "@" + v)]
    def build(t):
        o, a, v = t
        out = os.path.join(c.dir, "prog-%s-%s-%s" % (o, a, v or "default"))
        r = subprocess.run(["go", "build", GC, "-o", out, "./cmd/flags"], cwd=d, env=dict(toolchain("@" + v), GOOS=o, GOARCH=a, CGO_ENABLED="0"), capture_output=True, text=True, timeout=800)
        if r.returncode: raise Inconclusive("building for %s/%s failed:\n%s" % (o, a, (r.stdout + r.stderr)[-3000:]))
        return out
    with ThreadPoolExecutor(4) as ex:
        progs = list(ex.map(build, todo))
    res = c.jobs([("interpretation of %s" % os.path.basename(p), dict(binary=drv, profile="asmw", seed=SEED * 100 + s, n=60 if THOROUGH else 10, args=["-mem", os.path.join(REPO, "internal/monkey/mem"), p], timeout=800, tag=os.path.basename(p))) for p in progs for s in range(2)])
    seen = sorted({k for r in res if r["report"] for k in r["report"].get("known") or []})
    c.demos["K13"] = "seen: " + seen[0] if seen else "not seen in this run"
    # the Windows sources
    try:
        c.build("win")
    except Inconclusive:
        r = subprocess.run(["go", "build", "./..."], cwd=REPO, env=dict(ENV, GOOS="windows", CGO_ENABLED="0"), capture_output=True, text=True, timeout=800)
        if r.returncode: raise
        c.counts["Windows sources use what the stand-in does not have"] = 1
    else:
        for prof, n in (("C01", 60), ("C02", 60), ("C04", 40), ("C05", 30), ("C09", 40), ("C13", 30)): sequential(c, prof, n, shards=4, configs=("win",))
        workload(c, "std02", 1, shards=1, config="win")
    return ("the routine that writes code is interpreted as it is linked into programs for linux and darwin on amd64 and arm64 by go 1.23 to 1.25, with random arguments and failing system calls: protections, copy, result, "
            "stack, registers and layout are checked by a model of pages; the routine that tells the current goroutine is interpreted on arm64; the Windows sources are built over a stand-in for kernel32.dll that works on real memory "
            "with the rules of Windows, and random histories are compared with the model; distinct: platform, page size, requests and failures; histories as elsewhere"), BASE_ASSUME[1:] + [
        "instructions, system calls and mach functions behave as modelled in harness/cmd/asmw, kernel32.dll as in harness/winfake", "nothing is run on the other platforms themselves"]

def c23(c):
    for cfg, n in (("plain", 150), ("stw", 60), ("race", 40), ("win", 60), ("plain@1.25", 60)):
        try: c.build(cfg) if not missing(c, cfg) else None
        except Inconclusive:
            if cfg != "win": raise
            continue # see c22
        workload(c, "faults23", n, shards=4, config=cfg, timeout=120)
    return ("targets of five kinds are mocked, reconfigured, released and mocked again while mmap or mprotect fail in the calling thread (a seccomp filter: no memory, page may not become writable, executable, or both); after "
            "each operation, failed or not, calls with several arguments tell whether the target is in the state it must be in, other mocks are called, and in the end all machine code is compared; plain, stop-the-world, race "
            "and Windows-source builds; distinct: target, failure, operation, outcome, state before"), BASE_ASSUME + [
        "failures that leave the page of the target not executable are left out: nobody could mend them"]

def known(c, prop):
    """runs the demonstrations of the known findings of the property"""
    for k, text in known_findings(prop).items():
        if k in c.demos: # shown by the check itself
            c.known.append("%s %s" % (k, text))
            continue
        r = c.run(c.build("stw" if k == "K8" else "plain"), "known" + k, 1, 1, timeout=60)
        rep = r["report"]
        if rep and rep["done"]: how = "seen: " + rep["known"][0] if rep["known"] else "not seen in this run"
        else: how = "seen: the demonstration crashed (%s)" % first_line(r["stderr"])[:100]
        c.known.append("%s %s" % (k, text))
        c.counts["demonstrations of known findings"] = c.counts.get("demonstrations of known findings", 0) + 1
        c.demos[k] = how

CHECKS = {
    "C01": c01,
    "C02": c02,
    "C03": simple("C03", 300, releases=("1.24",)),
    "C04": c04,
    "C05": c05,
    "C06": c06,
    "C07": c07,
    "C08": c08,
    "C09": simple("C09", 200, configs=("plain", "cover", "asan"), releases=("1.25",)),
    "C10": simple("C10", 120, releases=("1.24",)),
    "C11": c11,
    "C12": simple("C12", 250, releases=("1.25",)),
    "C13": c13,
    "C14": c14,
    "C15": c15,
    "C16": c16,
    "C17": c17,
    "C18": c18,
    "C19": c19,
    "C20": c20,
    "C21": c21,
    "C22": c22,
    "C23": c23,
}

_SEQ = "runtime monitoring: random histories of operations run on the real library; an online monitor compares every call, event, panic and state with a reference model"
_N = "Executions observed on linux/amd64, go1.23 (parts also built by go1.24 and go1.25), seeded; the reference model (harness/model.go) states the property; inputs of known findings are left out."
_T = {
    "C02": "runtime monitoring: passed-through and unmocked calls of generated functions and of the standard library at random stack depths; online event, identity and result oracle (reference model of the unmocked function)",
    "C03": "runtime monitoring: random nested scopes with all kinds of exits; model of the scope stack compared with the behaviour of every target and variable after each exit",
    "C05": "runtime monitoring: complete executable mappings compared byte by byte with a pristine snapshot plus /proc/self/maps, during random mock/release histories",
    "C06": "runtime monitoring: exact counters against the model in sequential histories; counters sampled during concurrent rounds and bounded by started/completed calls",
    "C07": "runtime monitoring: recorded concurrent call/return histories with unique values checked offline for exactly-once and a linearization in sequence order",
    "C08": "runtime monitoring: calls from named and other goroutines (locked threads, migrations) against the filter's meaning; GetGoroutineId against runtime.Stack",
    "C12": "runtime monitoring: random histories of variable mocks over overlapping memory places compared with a shadow memory and guard words",
    "C13": "runtime monitoring: generated generic functions and methods in plain and race builds; online comparison of calls of all instantiations with the model",
    "C14": "runtime monitoring: generated types; the function GetMethod returns is called, mocked and compared with the direct call of the method by name",
    "C15": "runtime monitoring: GC stress with freed memory clobbered (GODEBUG=clobberfree=1), finalizers as liveness probes, content checks of pointer-rich values",
    "C16": "Go race detector (ThreadSanitizer runtime) on concurrent rounds, plus comparison of every result with the sequential model",
    "C17": "runtime monitoring: stop-the-world build under busy goroutines; all results checked, calls held inside functions across mocking and releasing",
    "C18": "runtime monitoring: random machine-code functions executed unmocked, hooked, passed through and released and compared with a pristine copy; byte and protection checks",
    "C19": "runtime monitoring: programs built in a matrix of compiler flags, started in a matrix of environments; stderr, stdout, exit code and effect of a mock observed",
    "C20": "runtime monitoring: event logs of identical histories recorded in six modes and compared offline; standard output between marks checked line by line",
    "C23": "runtime monitoring with fault injection: system calls refused by a seccomp filter of the calling thread during random histories; the behaviour of targets and all machine code compared with the state before or after the operation",
    "C22": "runtime monitoring: the linked assembly of four platforms run on instruction interpreters against a model of page protections with injected failures; the Windows sources run over a stand-in for kernel32.dll under model-checked histories",
    "C21": "runtime monitoring: ARM code generated by the real sources run on an instruction interpreter; search results on compiled and synthetic ARM code against the symbol table",
}
_L = {
    "C07": "Histories of up to 24 goroutines; the linearization check uses the recorded real-time order of calls.",
    "C14": "Generated types (60 per program, several programs) on linux/amd64, go1.23-1.25; K7 and K12 cases left out.",
    "C16": "Races of the executions seen only (happens-before detector); mocks with Origin left out (K5).",
    "C17": "linux/amd64, go1.23-1.25, -tags mockey_stw; no goroutine in the first 12 bytes of a target while it is written (K8).",
    "C18": "Instruction classes of the generator (40, integer, SSE2, stack, memory) on linux/amd64; no RIP-relative heads (K1).",
    "C19": "Flag combinations listed in tools/checks.py, given for all packages.",
    "C21": "The interpreter covers the instructions such branches may consist of; nothing runs on an ARM machine.",
}
NOTES = {i: (_T.get(i, _SEQ), _L.get(i, _N)) for i in CHECKS}
NOT_APPLICABLE = {}
