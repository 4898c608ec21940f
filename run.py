#!/usr/bin/env python3
"""Driver of the checks: run.py setup | run.py check <ID>

Every check copies the harness to a scratch directory, generates the zoo of mock targets for VERIF_SEED, builds it against
the working tree of /repo in the configurations it needs, runs workload processes and merges what their monitors saw.
"""
import fcntl, glob, threading, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

def goenv():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env"], capture_output=True, text=True, check=True).stdout
    env = dict(l.split("=", 1) for l in out.splitlines() if "=" in l and not l.startswith("BASH_FUNC"))
    for k in ("GOROOT", "MOCKEY_DEBUG", "MOCKEY_CHECK_GCFLAGS", "GODEBUG", "GOGC", "GORACE", "GOMAXPROCS"):
        env.pop(k, None)
    return env

ENV = goenv()
GC = "-gcflags=all=-l -N"
NOCGO = "netgo,osusergo"  # without these package net brings in C threads, whose stacks and arenas would look like leaked memory
CONFIGS = {
    "plain": [GC, "-tags=" + NOCGO],
    "race": [GC, "-race"],
    "pie": [GC, "-buildmode=pie", "-tags=" + NOCGO],
    "cover": [GC, "-cover", "-covermode=atomic", "-tags=" + NOCGO],
    "asan": [GC, "-asan", "-tags=" + NOCGO],
    "stw": [GC, "-tags=mockey_stw," + NOCGO, "-ldflags=-checklinkname=0"],
    "win": [GC, "-tags=" + NOCGO], # the Windows sources of the library over a stand-in for Windows
}

def toolchain(config):
    """environment for "config@1.24", with the Go release that is installed, or "config@v3", for processors with AVX2; None if there is none (or no C compiler for the address sanitizer)"""
    base, _, v = config.partition("@")
    e = dict(ENV)
    if base == "asan":
        try: bits = int(open("/proc/sys/vm/mmap_rnd_bits").read())
        except (OSError, ValueError): bits = 0
        if bits > 28 or not shutil.which("gcc", path=e.get("PATH")): return None # the sanitizer of gcc 13 fails at random with more bits
        e["CGO_ENABLED"] = "1"
    if v == "v3":
        if not {"avx2", "bmi1", "bmi2", "fma", "movbe", "abm"} <= set(open("/proc/cpuinfo").read().split()): return None
        e["GOAMD64"] = "v3"
    elif v:
        d = sorted(glob.glob("/opt/veriftools/go%s.*/bin" % v))
        if not d: return None
        e["PATH"] = d[-1] + ":" + e["PATH"]
    return e

class Inconclusive(Exception):
    pass

def windows_overlay(d):
    """replaces the files the library does not use on Windows by those it uses only there, with harness/winfake in place of Windows"""
    rep = {}
    def listing(goos):
        e = dict(ENV, GOOS=goos, CGO_ENABLED="0", GOARCH="amd64")
        r = subprocess.run(["go", "list", "-json=Dir,GoFiles,SFiles", "./..."], cwd=REPO, env=e, capture_output=True, text=True, timeout=300)
        if r.returncode: raise Inconclusive("go list for %s failed:\n%s" % (goos, r.stderr[-2000:]))
        dec, i, res = json.JSONDecoder(), 0, {}
        while i < len(r.stdout.rstrip()):
            o, i = dec.raw_decode(r.stdout, i)
            while i < len(r.stdout) and r.stdout[i].isspace(): i += 1
            res[o["Dir"]] = set(o.get("GoFiles") or []) | set(o.get("SFiles") or [])
        return res
    lin, win = listing("linux"), listing("windows")
    for k in lin:
        for f in lin[k] - win.get(k, set()): rep[os.path.join(k, f)] = ""
    n = 0
    for k in win:
        for f in win[k] - lin.get(k, set()):
            t = open(os.path.join(k, f)).read()
            if f.endswith(".go"):
                t = re.sub(r"(?m)^//( \+build|go:build).*$", "//", t)
                t = re.sub(r'(?m)^(\s*(?:import\s+)?)(?:(\w+)\s+)?"(syscall|golang\.org/x/sys/windows)"', lambda m: '%s%s "github.com/bytedance/mockey/verifh/winfake"' % (m.group(1), m.group(2) or m.group(3).split("/")[-1]), t)
            n += 1; o = os.path.join(d, "win-%d%s.txt" % (n, os.path.splitext(f)[1]))
            open(o, "w").write(t)
            rep[os.path.join(k, "zzwin%d%s" % (n, os.path.splitext(f)[1]))] = o
    out = os.path.join(d, "win-overlay.json")
    json.dump({"Replace": rep}, open(out, "w"))
    return out

class Ctx:
    """one check run"""
    def __init__(self, prop):
        self.prop = prop
        self.dir = tempfile.mkdtemp(prefix="mockey-%s-" % prop)
        self.violations = []   # (kind, message, detail)
        self.known, self.demos = [], {}
        self.counts, self.maxes, self.samples = {}, {}, []
        self.evals = 0
        self.keys = set()
        self.bins = {}
        self.start = time.time()
        self.notes = []

    # ---------------------------------------------------------------- building
    def zoo(self, seed, size, types=0, sizes=0):
        d = os.path.join(self.dir, "src%d-%d-%d-%d" % (seed, size[0], types, sizes))
        if not os.path.isdir(d):
            shutil.copytree(os.path.join(VERIF, "harness"), d, ignore=shutil.ignore_patterns("*_gen.go", "__pycache__"))
            subprocess.run([sys.executable, os.path.join(d, "gen_zoo.py"), str(seed)] + [str(x) for x in size] + [os.path.join(d, "zoo", "zoo_gen.go")], check=True)
            subprocess.run([sys.executable, os.path.join(d, "gen_getm.py"), str(seed), str(types), os.path.join(d, "gm", "gm_gen.go")], check=True)
            subprocess.run([sys.executable, os.path.join(d, "gen_sizes.py"), str(seed), str(sizes), os.path.join(d, "sizes_gen.go")], check=True)
        return d

    def build(self, config, seed=None, size=(60, 25, 20), types=0, pkg=".", src=None, sizes=0, flags=None):
        seed = SEED if seed is None else seed
        key = (config, seed, size, types, pkg, src, sizes)
        if key not in self.bins:
            d = src or self.zoo(seed, size, types, sizes)
            out = os.path.join(self.dir, "bin-%s-%d-%d" % (config.replace("@", "-go"), seed, len(self.bins)))
            base = config.partition("@")[0]
            cmd = ["go", "build"] + (flags if flags is not None else CONFIGS[base]) + (["-overlay", windows_overlay(d)] if base == "win" else []) + ["-o", out, pkg]
            r = subprocess.run(cmd, cwd=d, env=toolchain(config), capture_output=True, text=True, timeout=600)
            if r.returncode != 0:
                raise Inconclusive("building %s failed:\n%s" % (config, (r.stdout + r.stderr)[-4000:]))
            self.bins[key] = out
        return self.bins[key]

    # ---------------------------------------------------------------- running
    def run(self, binary, profile, seed, n, frm=0, env=None, timeout=300, scale=1, tag="", keep_stdout=False, slow_stdout=False, args=(), budget=None):
        """runs one workload process and returns its report"""
        base = os.path.join(self.dir, "%s-%s-%d-%d%s" % (os.path.basename(binary), profile, seed, frm, tag))
        e = dict(ENV, GOCOVERDIR=self.dir); e.update(env or {})
        cmd = [binary, "-profile", profile, "-seed", str(seed), "-n", str(n), "-from", str(frm), "-scale", str(scale),
               "-out", base + ".json", "-journal", base + ".journal", "-budget", str(budget or timeout * 0.6)] + list(args)
        res = {"base": base, "cmd": cmd, "env": env or {}, "hang": False}
        with open(base + ".err", "wb") as err, open(base + ".stdout" if keep_stdout else os.devnull, "wb") as out:
            rd = None
            if slow_stdout: # a small pipe that is read slowly: printing blocks again and again
                rd, wr = os.pipe()
                fcntl.fcntl(wr, 1031, 4096) # F_SETPIPE_SZ
                p = subprocess.Popen(cmd, stdout=wr, stderr=err, env=e, cwd=self.dir)
                os.close(wr)
                def drain():
                    while True:
                        b = os.read(rd, 4096)
                        if not b: break
                        out.write(b)
                        if len(b) > 1000: time.sleep(0.0005)
                th = threading.Thread(target=drain)
                th.start()
            else:
                p = subprocess.Popen(cmd, stdout=out, stderr=err, env=e, cwd=self.dir)
            try:
                p.wait(timeout)
            except subprocess.TimeoutExpired:
                res["hang"] = True
                p.send_signal(signal.SIGQUIT)
                try: p.wait(20)
                except subprocess.TimeoutExpired: p.kill(); p.wait()
            if rd is not None:
                th.join(60)
                os.close(rd)
        res["rc"] = p.returncode
        res["stderr"] = open(base + ".err", errors="replace").read()
        try: res["report"] = json.load(open(base + ".json"))
        except Exception: res["report"] = None
        try: res["journal"] = open(base + ".journal", errors="replace").read()
        except Exception: res["journal"] = ""
        return res

    def run_again(self, **kw):
        """runs a workload once more when it crashed in the very situation of known finding K9"""
        for k in range(3):
            res = self.run(**kw)
            if not (res["rc"] and K9.search(res["stderr"])): break
            self.counts["processes ended by known finding K9"] = self.counts.get("processes ended by known finding K9", 0) + 1
        return res

    def judge(self, res, what):
        """turns the outcome of a workload process into violations and coverage"""
        rep = res["report"]
        if rep:
            self.merge(rep)
            for v in rep["violations"] or []:
                self.violations.append((v["kind"], v["msg"], "case: %s\n%s\n" % (v["case"], "\n".join(v.get("trace") or []))))
        if rep and rep["done"] and res["rc"] in (0, 66):   # 66: races were reported, see the logs
            return
        if rep and rep["violations"]:
            return
        if res["hang"]:
            if re.search(r"^github\.com/bytedance/mockey(\.|/internal)", res["stderr"], re.M):
                self.violations.append(("hang", "%s did not finish, goroutines are inside mockey" % what, res["stderr"][-8000:] + "\njournal:\n" + res["journal"][-4000:]))
                return
            raise Inconclusive("%s did not finish in time\n%s" % (what, res["stderr"][-3000:]))
        if res["rc"] == -9 or "out of memory" in res["stderr"] or "cannot allocate memory" in res["stderr"] or "failed to create new OS thread" in res["stderr"]:
            raise Inconclusive("%s ran out of resources (rc %s)" % (what, res["rc"]))
        if res["rc"] == 3:
            raise Inconclusive("%s: bad usage\n%s" % (what, res["stderr"][-2000:]))
        head = res["stderr"][:3000]
        self.violations.append(("crash", "%s died with exit code %s: %s" % (what, res["rc"], first_line(head)),
                                "stderr:\n%s\n...\n%s\njournal of the running case:\n%s" % (head, res["stderr"][-3000:], res["journal"][-6000:])))

    def merge(self, rep):
        for k, v in (rep["counts"] or {}).items():
            if k != "wall_ms":
                self.counts[k] = self.counts.get(k, 0) + v
        for k, v in (rep["maxes"] or {}).items():
            self.maxes[k] = max(self.maxes.get(k, 0), v)
        for s in rep["samples"] or []:
            if len(self.samples) < 12: self.samples.append(s)
        self.evals += rep["evaluations"]
        self.keys.update(rep.get("keys") or [])

    def jobs(self, jobs, par=8):
        """jobs: list of (what, kwargs of run); judged in order"""
        with ThreadPoolExecutor(par) as ex:
            fs = [(w, ex.submit(self.run_again, **kw)) for w, kw in jobs]
            res = []
            for w, f in fs:
                r = f.result()
                self.judge(r, w)
                res.append(r)
        return res

    # ---------------------------------------------------------------- results
    def finish(self, rule, assumptions):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": "exploration",
            "coverage": {
                "evaluations": self.evals, "distinct_nontrivial": len(self.keys), "rule": rule,
                "samples": self.samples or ["none"], "observed": self.counts, "maxima": self.maxes,
            },
            "assumptions": assumptions, "wall_s": round(time.time() - self.start, 2), "violations": len(self.violations),
        }
        if self.known: ev["coverage"]["known_findings"] = [k + " -- " + self.demos[k.split()[0]] for k in self.known]
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if not self.violations:
            print("%s: held on everything explored: %d cases, %d distinct, %s" % (self.prop, self.evals, len(self.keys),
                  ", ".join("%s %d" % kv for kv in sorted(self.counts.items()))[:1500]))
            return 0
        rd = os.path.join(VERIF, "out")
        os.makedirs(rd, exist_ok=True)
        for i, (kind, msg, detail) in enumerate(self.violations[:5]):
            path = os.path.join(rd, "%s-%d.txt" % (self.prop, i))
            with open(path, "w") as f:
                f.write("property %s seed %d tier %s\n%s: %s\n\n%s\n\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3 run.py check %s\n" % (
                    self.prop, SEED, TIER, kind, msg, detail, SEED, TIER, self.prop))
            print("%s: %s: %s" % (self.prop, kind, msg[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

# a goroutine stopped in the middle of the jump a mock consists of
K9 = re.compile(r"^runtime\.asyncPreempt\(\)\n.*\n[^\n]*verifh/zoo\.[^\n]*\n[^\n]* \+0xa fp=", re.M)

def first_line(s):
    for l in s.splitlines():
        if l.strip(): return l.strip()
    return ""

def known_findings(prop):
    """id -> description of the findings listed for a property"""
    res = {}
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"KNOWN id=(\S+) property=(\S+) (.*)", l)
        if m and m.group(2) == prop: res[m.group(1)] = m.group(3).strip()
    return res

sys.path.insert(0, os.path.join(VERIF, "tools"))

def main():
    import checks
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        # warms the build cache
        c = Ctx("setup")
        try:
            for cfg in list(CONFIGS) + ["plain@v3"]:
                if cfg != "pie" and toolchain(cfg): c.build(cfg)
        except Inconclusive as e:
            print(e); return 2
        finally:
            c.close()
        return 0
    if len(sys.argv) != 3 or sys.argv[1] != "check":
        print(__doc__); return 2
    prop = sys.argv[2]
    c = Ctx(prop)
    try:
        rule, assumptions = checks.CHECKS[prop](c)
        checks.known(c, prop)
        return c.finish(rule, assumptions)
    except Inconclusive as e:
        if c.violations:
            return c.finish("incomplete run", [])
        print("%s: no verdict: %s" % (prop, e))
        return 2
    finally:
        c.close()

if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main())
