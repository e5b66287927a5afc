#!/usr/bin/env python3
"""Solver-based check of one property.   check.py <property> [--tier quick|thorough] [--only RUN]

Builds LLVM bitcode from /repo's current tree plus harness and models, executes it symbolically
(engine/symir, z3), replays counterexamples and a sample of explored paths against natively
compiled code, writes evidence/<property>.json.
exit 0: held on everything explored   1: VIOLATION   2: no answer
"""
import sys, os, json, hashlib, subprocess, time, threading, glob, re, shutil, argparse, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(V, "build")
import checks as CH

T0 = time.time()
BUDGET = 720   # seconds for the symbolic runs of a quick check; later runs get what is left
def log(*a): print("[%6.1fs]" % (time.time() - T0), *a, flush=True)
class Fail(Exception): pass
def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:20]
def rd(p):
    with open(p, "rb") as f: return f.read()
def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
def must(cmd, what, **kw):
    r = run(cmd, **kw)
    if r.returncode != 0: raise Fail("%s failed: %s\n%s" % (what, os.path.basename(cmd[0]), "\n".join(x for x in r.stdout.decode(errors="replace").split("\n") if "error" in x or "undefined" in x)[:1800]))
    return r.stdout.decode(errors="replace")

def tree_hash(base, exts=(".h", ".cc", ".c", ".inc", ".hpp")):
    fs = []
    for d, ds, fns in os.walk(base):
        ds[:] = sorted(x for x in ds if not x.startswith((".", "_build", "cmake-build")) and x not in ("venv", "ska"))
        for f in sorted(fns):
            if f.endswith(exts): fs.append(os.path.join(d, f))
    h = hashlib.sha256()
    for f in fs: h.update(os.path.relpath(f, base).encode()); h.update(rd(f))
    return h.hexdigest()[:20]

class Builder:
    def __init__(self):
        self.repoh = tree_hash(REPO)
        self.mh = sha(tree_hash(os.path.join(V, "models")), tree_hash(os.path.join(V, "native")), tree_hash(os.path.join(V, "harness")))
        self.pool = ThreadPoolExecutor(8)
        self.locks = {}; self.g = threading.Lock()
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    def once(self, key, fn):
        with self.g:
            f = self.locks.get(key)
            if f is None: f = self.locks[key] = self.pool.submit(fn)
        return f
    def engine(self):
        def go():
            with open(os.path.join(BUILD, ".lock"), "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                must(["make", "-s", "-j8", "-C", os.path.join(V, "engine"), "B=" + os.path.join(BUILD, "engine")], "engine build")
            return os.path.join(BUILD, "engine", "symir")
        return self.once("engine", go)
    def gen(self):
        def go():
            d = os.path.join(BUILD, "gen-" + self.repoh)
            if os.path.exists(os.path.join(d, ".ok")): return d
            os.makedirs(d, exist_ok=True)
            for src, out in (("gen_perc_bucket_tags", "percentile_bucket_tags.inc"), ("gen_perc_bucket_values", "percentile_bucket_values.inc"), ("gen_valid_chars", "valid_chars.inc")):
                exe = os.path.join(d, "%s.%d" % (src, os.getpid()))
                must(["g++", "-std=c++17", "-O1", "-I" + REPO, "-o", exe, "%s/tools/%s.cc" % (REPO, src)], src)
                r = subprocess.run([exe, os.path.join(d, out)], cwd=d, stdout=subprocess.PIPE, timeout=60)
                if r.returncode: raise Fail(src + " failed")
                if not os.path.exists(os.path.join(d, out)) or r.stdout: 
                    with open(os.path.join(d, out), "wb") as f: f.write(r.stdout)
                os.unlink(exe)
            open(os.path.join(d, ".ok"), "w").close()
            return d
        return self.once("gen", go)
    def incs(self, gen, stubs, sym):
        # the harness's own stand-ins come first, then the repository
        r = ["-I" + os.path.join(V, "native")]
        if sym: r += ["-I" + os.path.join(V, "models", "symstubs")]
        for s in stubs: r += ["-I" + os.path.join(V, "models", "stubs_" + s)]
        return r + ["-I" + REPO, "-I" + gen, "-I" + os.path.join(V, "models", "stubs", "x"), "-I" + os.path.join(V, "models", "stubs"), "-I" + os.path.join(V, "models")]
    def deps_key(self, src, flags):
        return sha(src, rd(src), self.repoh, self.mh, " ".join(flags))
    def bc(self, src, stubs=(), defs=()):
        c = src.endswith(".c")
        base = ["clang-18" if c else "clang++-18", "-std=gnu11" if c else "-std=c++17", "-O1", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-pie", "-fno-pic", "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DVP_SYM"] + ["-D" + d for d in defs]
        if "/models/" in src: base += ["-fno-builtin"]
        def go():
            gen = self._gen
            flags = base + self.incs(gen, stubs, True)
            out = os.path.join(BUILD, "obj", "%s-%s.bc" % (os.path.basename(src), self.deps_key(src, flags)))
            if not os.path.exists(out):
                t = out + ".%d.tmp" % os.getpid()
                must(flags + ["-c", "-emit-llvm", "-o", t, src], "bitcode " + src)
                os.rename(t, out)
            return out
        return self.once(("bc", src, tuple(stubs), tuple(defs)), go)
    def obj(self, src, stubs=(), defs=(), san=True):
        c = src.endswith(".c")
        base = ["gcc" if c else "g++", "-std=gnu11" if c else "-std=c++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DVP_NATIVE"] + ["-D" + d for d in defs]
        if san: base += ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]
        def go():
            gen = self._gen
            flags = base + self.incs(gen, stubs, False)
            out = os.path.join(BUILD, "obj", "%s-%s.o" % (os.path.basename(src), self.deps_key(src, flags)))
            if not os.path.exists(out):
                t = out + ".%d.tmp" % os.getpid()
                must(flags + ["-c", "-o", t, src], "object " + src)
                os.rename(t, out)
            return out
        return self.once(("obj", src, tuple(stubs), tuple(defs), san), go)

def paths_of(r):
    h = os.path.join(V, "harness", r["harness"])
    units = [os.path.join(REPO, u) for u in r.get("units", [])]
    models = [os.path.join(V, "models", m) for m in r.get("models", ["models_core.cc", "models_libc.c"])]
    nat = [os.path.join(V, "native", "native_rt.cc"), os.path.join(V, "native", "rt_seq.cc"), os.path.join(V, "native", "native_clock.cc")] if not r.get("threads") else [os.path.join(V, "native", "native_rt.cc"), os.path.join(V, "native", "rt_threads.cc")]
    if not r.get("threads"): nat.append(os.path.join(V, "native", "native_strto.cc"))
    nat += [os.path.join(V, "models", m) for m in r.get("native_models", [])]
    return h, units, models, nat

class Run:
    def __init__(self, B, name, r, tier, seed, only_native=False):
        self.B, self.name, self.r, self.tier, self.seed = B, name, r, tier, seed
        self.entry = r.get("entry", name)
        self.params = dict(r.get("params", {})); self.params.update(r.get(tier, {}).get("params", {}))
        self.opts = dict(r.get("opts", {})); self.opts.update(r.get(tier, {}).get("opts", {}))
        self.stubs = r.get("stubs", []); self.defs = r.get("defs", [])
        self.cnt = {}; self.tim = {}; self.reach = {}; self.msgs = {}; self.errs = {}; self.viol = {}; self.samples = []; self.funcs = {}; self.bbs = {}
        self.notes = []
    def start_build(self):
        B = self.B; h, units, models, nat = paths_of(self.r)
        self.f_bc = [B.bc(x, self.stubs, self.defs) for x in [h] + units + models]
        if self.r.get("threads"):
            self.f_obj = None; self.nat = nat
        else:
            self.f_obj = [B.obj(x, self.stubs, self.defs) for x in [h] + units + nat]
    def wd(self):
        d = os.path.join(BUILD, "runs", "%s-%s-%d" % (self.name, self.tier, os.getpid())); os.makedirs(d, exist_ok=True); return d
    def link(self):
        d = self.wd(); bcs = [f.result() for f in self.f_bc]
        x = os.path.join(d, "x.bc")
        must(["llvm-link-18"] + bcs + ["-o", x], "llvm-link")
        must(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=" + self.entry, x, "-o", x], "opt")
        self.x = x
    def link_native(self):
        d = self.wd(); exe = os.path.join(d, "native")
        libs = self.r.get("libs", []) or []
        absl = sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a")) if self.r.get("absl", True) else []
        L = ["-lfmt"] + libs + ["-Wl,--start-group"] + absl + ["-Wl,--end-group", "-lpthread"]
        if self.r.get("threads"):
            # the very bitcode that was executed symbolically, with scheduling hooks, compiled natively
            ib = os.path.join(d, "inst.bc")
            must([self.B.engine().result(), "--instrument", ib, self.x0()], "instrument")
            o = os.path.join(d, "inst.o")
            must(["clang++-18", "-O1", "-fsanitize=address", "-c", ib, "-o", o], "native bitcode")
            dd = self.defs + ["VP_ENTRY=" + self.entry, 'VP_ENTRY_NAME="%s"' % self.entry]
            objs = [self.B.obj(s, self.stubs, dd).result() for s in self.nat] + [o]
            must(["g++", "-fsanitize=address,undefined", "-o", exe] + objs + L, "native link")
        else:
            objs = [f.result() for f in self.f_obj]
            must(["g++", "-fsanitize=address,undefined", "-o", exe] + objs + L, "native link")
        self.exe = exe
    def x0(self):
        # native variant of the bitcode: harness and repo units only (models_* replaced by real code)
        return self.x
    def symbolic(self, jobs):
        out = os.path.join(self.wd(), "out.txt")
        o = self.opts
        cmd = [self.B.engine().result(), self.x, "--entry", self.entry, "--out", out, "--jobs", str(jobs), "--seed", str(self.seed), "--samples", str(o.get("samples", 24)),
               "--max-time", str(max(10, min(o.get("time", 400 if self.tier == "quick" else 3000), (BUDGET if self.tier == "quick" else 1e9) - (time.time() - T0)))), "--max-steps", str(o.get("steps", 3000000)), "--repo", REPO + "/"]
        cmd += ["--stop-file", os.path.join(BUILD, "stop.%d" % os.getpid())]
        if self.stop_early: cmd += ["--stop-after", "15"]
        if "preempt" in o: cmd += ["--preempt", str(o["preempt"])]
        if "mux" in o: cmd += ["--mux", str(o["mux"])]
        if "split" in o: cmd += ["--split", str(o["split"])]
        if "rlimit" in o: cmd += ["--rlimit", str(o["rlimit"])]
        if o.get("no_uninit"): cmd += ["--no-uninit"]
        for k, v in self.params.items(): cmd += ["--param", "%s=%d" % (k, v)]
        t = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=(BUDGET + 120 if self.tier == "quick" else o.get("time", 3000) + 300))
        self.wall = time.time() - t
        self.engine_out = p.stdout.decode(errors="replace")
        if p.returncode != 0 or not os.path.exists(out): raise Fail("engine failed on %s (rc %d): %s" % (self.name, p.returncode, self.engine_out[-3000:]))
        self.parse(out)
    def parse(self, out):
        ended = 0; curk = None
        with open(out, errors="replace") as f:
            for l in f:
                l = l.rstrip("\n"); k = l[:2]; rest = l[2:]
                if k == "S ": n, v = rest.rsplit(" ", 1); self.cnt[n] = self.cnt.get(n, 0) + int(v)
                elif k == "T ":
                    n, v = rest.rsplit(" ", 1); v = float(v)
                    self.tim[n] = max(self.tim.get(n, 0), v) if n in ("maxQuery", "wall") else self.tim.get(n, 0) + v
                elif k in ("R ", "M ", "E "):
                    c, m = rest.split(" ", 1); d = {"R": self.reach, "M": self.msgs, "E": self.errs}[k[0]]
                    d[m] = d.get(m, 0) + int(c) if c.isdigit() else d.get(rest, 0) + 1
                elif k == "K ": c, curk = rest.split(" ", 1)
                elif k == "V ":
                    j = json.loads(rest); self.viol.setdefault(curk, j)
                elif k == "P ": self.samples.append(json.loads(rest))
                elif k == "F ":
                    c, h, n, rp, nm = rest.split(" ", 4); o = self.funcs.setdefault(nm, [0, int(n), rp == "1"]); o[0] += int(c)
                elif k == "B ": i, nm = rest.split(" ", 1); self.bbs.setdefault(nm, set()).add(int(i))
                elif l == "END": ended = 1
        if not ended: self.errs["engine output incomplete"] = 1
        for k in ("inconclusive", "timeouts", "unknown"):
            if self.cnt.get(k): self.notes.append("%s: %d" % (k, self.cnt[k]))
    def replay_file(self, j, path):
        with open(path, "w") as f:
            f.write("E %s\n" % self.entry)
            for k, v in self.params.items(): f.write("P %s %d\n" % (k, v))
            for n, h in j["inputs"]: f.write("I %s %s\n" % (n.replace(" ", "_"), h or "-"))
            if j.get("sched"): f.write("S %s\n" % j["sched"])
        return path
    def native(self, path, timeout=20):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:max_allocation_size_mb=64:strict_string_checks=0", UBSAN_OPTIONS="print_stacktrace=1:exitcode=98", TZ="UTC")
        try:
            p = subprocess.run([self.exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=self.wd())
            return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            return "timeout", "", ""

def vfunc(j):
    for s in j.get("stack", []):
        if REPO + "/" in s or " at /repo/" in s or re.search(r" at (\.\./)?(spectator|server|admin|util|bin)/", s): return s.split(" at ")[0].split("(")[0]
    return (j.get("stack") or ["?"])[0].split(" at ")[0].split("(")[0]
def vkey(prop, rname, j):
    if j["kind"] == "assert": return "%s|%s|assert|%s" % (prop, rname, j["msg"])
    return "%s|%s|%s|%s|%s" % (prop, rname, j["kind"], re.sub(r"\d+", "#", j["msg"]), vfunc(j))

def load_known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only"); ap.add_argument("--keep", action="store_true"); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("-v", action="store_true")
    ap.add_argument("--time", type=int); a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.prop == "--setup": pass
    P = CH.PROPS[a.prop]; names = [n for n in P["runs"] if (not a.only or n == a.only) and (a.tier == "thorough" or not CH.RUNS[n].get("thorough_only"))]
    B = Builder(); ef = B.engine(); B._gen = None
    B._gen = B.gen().result()
    runs = [Run(B, n, CH.RUNS[n], a.tier, seed) for n in names]
    for r in runs:
        if a.time: r.opts["time"] = a.time
        r.stop_early = not any(f["property"] == a.prop and f["key"].split("|")[1] == r.name for f in load_known().get("findings", []))
        r.start_build()
    ef.result(); log("engine ready")
    conc = P.get("conc", 2 if len(runs) > 1 else 1)
    viols = []; problems = []; kkeys = {f["key"] for f in load_known().get("findings", []) if f["property"] == a.prop}
    def do(r):
        try:
            r.link()
            r.symbolic(max(1, a.jobs // conc))
            if any(vkey(a.prop, r.name, j) not in kkeys for j in r.viol.values()): open(os.path.join(BUILD, "stop.%d" % os.getpid()), "w").close()
        except Fail as e: r.failed = True; problems.append("%s: %s" % (r.name, e))
        except subprocess.TimeoutExpired: r.failed = True; problems.append("%s: engine timeout" % r.name)
    with ThreadPoolExecutor(conc) as ex: list(ex.map(do, runs))
    if os.path.exists(os.path.join(BUILD, "stop.%d" % os.getpid())): os.unlink(os.path.join(BUILD, "stop.%d" % os.getpid()))
    if problems:
        for p in sorted(set(x.split(": ",1)[1] for x in problems)): log("ERROR", p)
        runs = [r for r in runs if not getattr(r, "failed", False)]   # what the other runs found still counts
        if not any(r.viol for r in runs): sys.exit(2)
    known = load_known(); kf_hit = []
    validated = 0; mismatches = []
    for r in runs:
        log("%s: paths=%d viol-paths=%d forks=%d steps=%d queries=%d z3=%d z3time=%.1fs asserts=%d wall=%.1fs%s" % (r.name, r.cnt.get("paths", 0), r.cnt.get("pathsErr", 0), r.cnt.get("forks", 0), r.cnt.get("steps", 0), r.cnt.get("queries", 0), r.cnt.get("z3Calls", 0), r.tim.get("z3Time", 0), r.cnt.get("asserts", 0), r.wall, " " + "; ".join(r.notes) if r.notes else ""))
        for m, c in sorted(r.errs.items()): log("   engine gap x%d: %s" % (c, m))
        if a.v:
            for m, c in sorted(r.reach.items()): log("   reach %s x%d" % (m, c))
            if r.engine_out.strip(): print(r.engine_out[-3000:])
        miss = [l for l in r.r.get("reach", []) if not r.reach.get(l)]
        if miss and not r.viol: problems.append("%s: required behaviours never reached: %s" % (r.name, ", ".join(miss)))
        if r.errs: problems.append("%s: %d paths could not be executed (%s)" % (r.name, sum(r.errs.values()), sorted(r.errs)[0][:300]))
        for k in ("inconclusive", "timeouts"):
            if r.cnt.get(k): problems.append("%s: %s=%d" % (r.name, k, r.cnt[k]))
    # native side
    def nat(r):
        try: r.link_native()
        except Fail as e: r.exe = None; r.nat_err = str(e)
    with ThreadPoolExecutor(4) as ex: list(ex.map(nat, runs))
    outdir = os.path.join(BUILD, "replay"); os.makedirs(outdir, exist_ok=True)
    for r in runs:
        if r.exe is None: problems.append("%s: native build failed: %s" % (r.name, r.nat_err)); continue
        for k, j in sorted(r.viol.items()):
            key = vkey(a.prop, r.name, j)
            path = os.path.join(outdir, "%s-%s-%s.txt" % (a.prop, r.name, sha(key)[:8])); r.replay_file(j, path)
            rc, so, se = r.native(path)
            j["native_rc"] = rc; j["native"] = (so[-400:] + "\n" + se[-3000:])
            conf = False
            if j["kind"] == "assert": conf = rc == 10 and ("ASSERT " + j["msg"]) in so or rc in (99, 98, -6, -11, 134, 139)
            elif j["kind"] == "step-limit": conf = rc == "timeout"
            elif j["kind"] == "data-race": conf = rc in (0, 97) or "schedule exhausted" in se   # the schedule leads there natively too; the race itself is by happens-before analysis
            elif j["kind"] == "deadlock": conf = rc in ("timeout", 96)
            elif j["kind"] == "uninit": conf = rc == 0 or rc not in (77, 78)
            else: conf = rc not in (0, 77, 78, 79, 3) 
            viols.append((r, key, j, path, conf))
        todo = r.samples; nmax = r.opts.get("replays", 48 if a.tier == "quick" else 256)
        step = max(1, len(todo) // nmax); todo = todo[::step][:nmax]
        def chk(ij):
            i, j = ij
            path = os.path.join(r.wd(), "s%d.txt" % i); r.replay_file(j, path)
            return j, path, r.native(path)
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(chk, enumerate(todo)))
        for j, path, (rc, so, se) in res:
            loose = any(n.startswith("~") for n, _ in j["inputs"])
            if rc == 0:
                obs = [l[4:] for l in so.splitlines() if l.startswith("OBS ")]
                want = ["%s %s" % (n, h) for n, h in j["obs"]]
                if obs == want: validated += 1
                elif not loose: mismatches.append((r, path, "observations differ: native %s / symbolic %s" % (obs[:6], want[:6])))
            elif rc in (77, 78) and loose: pass
            else: mismatches.append((r, path, "native rc %s: %s %s" % (rc, so[-200:], se[-800:])))
    for r, path, m in mismatches[:6]: log("MISMATCH %s %s: %s" % (r.name, path, m))
    if mismatches: problems.append("%d native replays disagree with the symbolic execution" % len(mismatches))
    bad = 0
    kfs = {f["key"]: f for f in known.get("findings", []) if f["property"] == a.prop}
    for r, key, j, path, conf in viols:
        log("%s %s" % ("counterexample" if conf else "UNCONFIRMED counterexample", key))
        if a.v or key not in kfs:
            print("    at", j["loc"]); [print("      ", s) for s in j["stack"][:10]]
            print("    inputs:", [(n, h) for n, h in j["inputs"] if not n.startswith("sched_")][:40], "sched:", j["sched"])
            print("    native rc", j["native_rc"], j["native"][-1500:].replace("\n", "\n      "))
        if key in kfs:
            kf_hit.append(key); print("KNOWN-FINDING: property=%s %s" % (a.prop, kfs[key]["what"])); continue
        if conf:
            bad += 1
            dst = os.path.join(V, "evidence", "replay"); os.makedirs(dst, exist_ok=True)
            fp = os.path.join(dst, os.path.basename(path)); shutil.copy(path, fp)
            with open(fp + ".json", "w") as f: json.dump(dict(j, run=r.name, key=key), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (a.prop, fp), flush=True)
        else: problems.append("%s: counterexample not confirmed natively: %s" % (r.name, key))
    write_evidence(a, P, runs, viols, kf_hit, validated, problems, seed)
    for p in problems: log("PROBLEM", p)
    if not a.keep:
        for r in runs: shutil.rmtree(r.wd(), ignore_errors=True)
    if bad: sys.exit(1)
    if problems: sys.exit(2)
    log("held: %s (%d paths, %d replayed natively)" % (a.prop, sum(r.cnt.get("paths", 0) for r in runs), validated))
    sys.exit(0)

def dem(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE); return p.stdout.decode().split("\n")
    except Exception: return names

def write_evidence(a, P, runs, viols, kf_hit, validated, problems, seed):
    tot = lambda k: sum(r.cnt.get(k, 0) for r in runs)
    fn = {}
    for r in runs:
        for n, (c, nb, rp) in r.funcs.items():
            if not rp: continue
            o = fn.setdefault(n, [0, nb, set()]); o[0] += c; o[2] |= r.bbs.get(n, set())
    names = sorted(fn); dn = dem(names)
    funcs = [{"function": d[:200], "calls": fn[n][0], "blocks_reached": len(fn[n][2]), "blocks": fn[n][1]} for n, d in zip(names, dn)]
    bounds = [{"run": r.name, "what": r.r.get("what", ""), "bounds": r.r.get("bounds", ""), "params": r.params, "preemption_bound": r.opts.get("preempt"), "paths": r.cnt.get("paths", 0), "queries": r.cnt.get("queries", 0), "z3_calls": r.cnt.get("z3Calls", 0), "solver_s": round(r.tim.get("z3Time", 0), 2), "wall_s": round(r.wall, 2), "assertions": sum(r.msgs.values()), "reached": r.reach, "asserted": sorted(r.msgs)[:60]} for r in runs]
    samples = []
    for r in runs:
        for j in r.samples[:3]: samples.append({"run": r.name, "inputs": [[n, h[:160]] for n, h in j["inputs"]][:24], "sched": j["sched"][:80], "constraints": j["pc"], "steps": j["steps"]})
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot("paths") + tot("forks"), "transitions": tot("steps"), "traces_validated_against_impl": validated, "samples": samples[:12] or ["none"],
                       "paths_completed": tot("paths"), "paths_violating": tot("pathsErr"), "functions_encoded": funcs, "runs": bounds,
                       "queries_discharged": tot("queries"), "z3_calls": tot("z3Calls"), "assert_queries": tot("assertQueries"), "assert_unsat": tot("assertUnsat"), "memory_checks": tot("memChecks"),
                       "solver_s": round(sum(r.tim.get("z3Time", 0) for r in runs), 2), "exhaustive_within_bounds": not problems, "problems": problems,
                       "known_findings_hit": kf_hit, "counterexamples": [{"key": k, "confirmed": c, "loc": j["loc"]} for _, k, j, _, c in viols]},
          "violations": sum(1 for _, k, j, _, c in viols if c and k not in kf_hit),
          "wall_s": round(time.time() - T0, 2)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if a.only: return
    with open(os.path.join(V, "evidence", a.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)

if __name__ == "__main__":
    try: main()
    except Fail as e: log("ERROR", e); sys.exit(2)
