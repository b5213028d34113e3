"""Shared machinery of all checks: building sgrid from /repo, running harnesses
under monitors, collecting events, matching known findings, writing evidence and
giving the verdict.  Exit codes: 0 held, 1 violation (with a VIOLATION line),
2 the check itself could not decide (build failure, nothing observed)."""
import os, sys, json, time, shutil, subprocess, tempfile, hashlib, re, signal, fnmatch
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SGRID_REPO", "/repo")
NCPU = os.cpu_count() or 4

BASE_DFLAGS = ("-DNONICOFUNCS -DLEVEL6_Pragmas -DTOPLEVEL_Pragmas -DUMFPACK "
               "-DSUITESPARSEQR -DLAPACK -DCBLAS -DFFTW3 -DGSL -DLIBSGRID")
SYSLIBS = "-lspqr -lcholmod -lumfpack -lamd -lfftw3 -llapack -lblas -lgsl -lgslcblas -lm".split()

P = "src/physics/"; U = "src/utility/"
MODSETS = {
    "core":  [U+"s2kit", U+"GridIterators", U+"LinAlg"],
    "adm":   [P+"ADMvars", P+"ModeComputer", U+"s2kit", U+"GridIterators", U+"LinAlg",
              P+"BSSN", P+"Z4secondO", P+"SingleBH", P+"TestID", P+"ScalarWave"],
    "main":  [P+"ADMvars", P+"ModeComputer", U+"s2kit", U+"GridIterators", U+"LinAlg",
              P+"Poisson3", P+"Poisson2", P+"Poisson", P+"BSSN", P+"Z4secondO", P+"SingleBH",
              P+"TestID", P+"TestDerivs", P+"ConvTest", P+"ScalarWave", P+"ScalarOnKerr",
              P+"ScalarOnKerr/DV_CircSchwSource"],
    "alt":   [P+"testwave", U+"NumericUtils", P+"PN_CircularOrbit_GWs", P+"ModeComputer",
              P+"ADMvars", U+"s2kit", P+"ScalarOnKerr", P+"ScalarOnKerr/DV_CircSchwSource2"],
}
OFLAGS = {
    "asan":  "-O1 -g1 -fno-omit-frame-pointer -fopenmp -fsanitize=address,undefined -fno-sanitize=shift-base",
    "plain": "-O2 -g1 -fopenmp",
    "O1":    "-O1 -g1 -fopenmp",
    "tsan":  "-O1 -g1 -fno-omit-frame-pointer -fopenmp -fsanitize=thread",
    "vg":    "-O1 -g -fopenmp",
}

class BuildError(Exception): pass
class HarnessError(Exception): pass

def have(x): return shutil.which(x) is not None

class Build:
    """A copy of /repo's current sources compiled into lib/libsgrid.a."""
    def __init__(self, check, variant, modset, extra_mods=(), extra_dflags=""):
        self.variant, self.modset = variant, modset
        self.dir = os.path.join(check.work, "build-%s-%s%s" % (variant, modset, "".join("-"+m.split("/")[-1] for m in extra_mods)))
        d = self.dir
        os.makedirs(d)
        subprocess.check_call(["cp", "-a", REPO+"/src", REPO+"/Makefile", REPO+"/Makefile.subdirs", d])
        for f in ("sgrid_automatic_include.h", "sgrid_automatic_initialize.c"):
            try: os.unlink(d+"/src/main/main/"+f)
            except FileNotFoundError: pass
        for root, _, files in os.walk(d+"/src"):
            for f in files:
                if f.endswith(".m"): os.utime(os.path.join(root, f), (946684800, 946684800))
        shutil.copy(VERIF+"/lib/v.mk", d)
        os.makedirs(d+"/exe", exist_ok=True)
        mods = list(MODSETS[modset]) + list(extra_mods)
        cc = "ccache gcc" if have("ccache") else "gcc"
        cxx = "ccache g++" if have("ccache") else "g++"
        with open(d+"/MyConfig", "w") as f:
            for m in mods: f.write("libpaths += %s\n" % m)
            f.write("EXEC = sgrid\nEXECDIR = $(TOP)/exe\nCC = %s\nCXX = %s\nCLINKER = g++\n" % (cc, cxx))
            f.write("OFLAGS = -w %s\nDFLAGS += %s %s\n" % (OFLAGS[variant], BASE_DFLAGS, extra_dflags))
            f.write("SPECIALINCS += -I/usr/include/suitesparse\n")
        env = dict(os.environ)
        env["CCACHE_DIR"] = VERIF+"/.cache/ccache"; env["CCACHE_NOHASHDIR"] = "1"
        env["CCACHE_BASEDIR"] = d; env["CCACHE_MAXSIZE"] = "3G"
        for k in ("MAKEFLAGS", "MFLAGS"): env.pop(k, None)
        self.env = env
        log = d+"/make.log"
        with open(log, "w") as lf:
            base = ["make", "-f", "Makefile", "-f", "v.mk", "SHELL=/bin/bash", ".SHELLFLAGS=-ec"]
            rc = subprocess.call(base+["src/main/main/sgrid_automatic_include.h",
                                       "src/main/main/sgrid_automatic_initialize.c"], cwd=d, env=env, stdout=lf, stderr=lf)
            if rc == 0:
                rc = subprocess.call(base+["-j%d" % NCPU, "vall"], cwd=d, env=env, stdout=lf, stderr=lf)
        if rc != 0 or not os.path.exists(d+"/lib/libsgrid.a"):
            tail = open(log, errors="replace").read()
            errs = [l for l in tail.splitlines() if re.search(r"error|undefined|\*\*\*", l)][:20]
            raise BuildError("building sgrid (%s,%s) failed:\n%s" % (variant, modset, "\n".join(errs) or tail[-2000:]))
    def link(self, name, sources, extra=()):
        """compile harness sources (relative to /verif/harness) against libsgrid.a"""
        out = os.path.join(self.dir, "exe", name)
        objs = []
        def one(s):
            o = os.path.join(self.dir, "exe", name+"-"+os.path.basename(s)+".o")
            cmd = ["gcc", "-w"]+OFLAGS[self.variant].split()+BASE_DFLAGS.split()+list(extra)+[
                   "-I"+VERIF+"/harness", "-I"+self.dir+"/src/main/main", "-I"+self.dir+"/src/utility/s2kit",
                   "-I/usr/include/suitesparse", "-c", VERIF+"/harness/"+s, "-o", o]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=self.dir+"/src/main/main")
            if r.returncode: raise BuildError("harness %s does not compile:\n%s" % (s, r.stdout[-3000:]))
            return o
        with ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(one, sources))
        ld = [x for x in OFLAGS[self.variant].split()]
        cmd = ["g++"]+ld+["-o", out]+objs+[self.dir+"/lib/libsgrid.a"]+SYSLIBS+[x for x in extra if x.startswith("-l") or x.startswith("-Wl")]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise BuildError("harness %s does not link:\n%s" % (name, r.stdout[-3000:]))
        return out

class Result: pass

SAN_RE = re.compile(r"(ERROR: (?:Address|Leak|Thread|Memory)Sanitizer[^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer[^\n]*)")

def san_keys(text, srcroot=None):
    """Stable keys of sanitizer reports: kind + innermost sgrid frames, no line numbers."""
    keys = []
    lines = text.splitlines()
    for i, l in enumerate(lines):
        if "runtime error" not in l and "Sanitizer" not in l: continue
        l = l[-3000:]
        m = re.search(r"([^ /]+\.[ch]c?):\d+(?::\d+)?: runtime error: (.*)", l)
        if m:
            msg = re.sub(r"0x[0-9a-f]+", "ADDR", m.group(2)); msg = re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?", "N", msg)
            fn = ""
            for k in range(i+1, min(i+4, len(lines))):
                mm = re.search(r"#\d+ 0x[0-9a-f]+ in (\S+)", lines[k])
                if mm: fn = mm.group(1); break
            keys.append("ubsan:%s:%s" % (m.group(1), msg[:90])); continue
        m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): (\S+)", l)
        if m:
            fr = []
            for k in range(i+1, min(i+60, len(lines))):
                mm = re.search(r"#\d+ 0x[0-9a-f]+ in (\S+) .*?([^/ ]+\.(?:c|cc|h)):\d+", lines[k])
                if mm: fr.append(mm.group(2)+":"+mm.group(1))
                if len(fr) >= 2 or (fr and not lines[k].strip()): break
            keys.append("%s:%s:%s" % ("asan" if m.group(1)[0] == "A" else "lsan", m.group(2), "<".join(fr)))
    return keys

class Check:
    def __init__(self, prop, level="exploration", rule=""):
        self.prop, self.level, self.rule = prop, level, rule
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        if "--thorough" in sys.argv: self.tier = "thorough"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=base)
        self.failures = []       # (key, detail)
        self.counters = {}       # name -> int
        self.cases = set(); self.ncases = 0; self.ndistinct = 0
        self.samples = []
        self.assumptions = []
        self.errors = []
        self.known = []
        kf = VERIF+"/known_findings.json"
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop]
        self.known_hit = {}
    # ---- events
    def fail(self, key, detail=""):
        self.failures.append((key, detail))
    def count(self, name, n=1): self.counters[name] = self.counters.get(name, 0)+n
    def case(self, desc, nontrivial=True):
        self.ncases += 1
        if nontrivial: self.cases.add(hashlib.md5(str(desc).encode()).hexdigest())
        if len(self.samples) < 6: self.samples.append(str(desc)[:400])
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(str(s)[:400])
    def build(self, variant, modset, **kw): return Build(self, variant, modset, **kw)
    # ---- running
    def run(self, cmd, cwd, env=None, timeout=300, input=None, limit_as=None, keep_env=True, preexec=None, merge=False):
        e = dict(os.environ) if keep_env else {}
        e.update({"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "LC_ALL": "C",
                  "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1",
                  "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0", "LSAN_OPTIONS": "exitcode=0"})
        if env: e.update(env)
        r = Result()
        t = time.time()
        snap = None if getattr(self, "no_retry", False) or preexec else self._files(cwd)
        for attempt in (1, 2):
            if attempt == 2: self._restore(cwd, snap)
            p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.PIPE, start_new_session=True, preexec_fn=preexec)
            try:
                out, err = p.communicate(input=input, timeout=timeout)
                r.timeout = False
            except subprocess.TimeoutExpired:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                out, err = p.communicate()
                r.timeout = True
            if r.timeout: self.ntimeout = getattr(self, "ntimeout", 0)+1
            if not r.timeout or getattr(self, "no_retry", False) or self.stop(): break
        r.rc = p.returncode
        r.out = out.decode(errors="replace"); r.err = (err or b"").decode(errors="replace")
        r.wall = time.time()-t
        r.san = san_keys(r.err+("\n"+r.out if merge else ""))
        return r
    def _files(self, d, limit=4 << 20):
        """contents of a run's folder, so that a second attempt starts from the same"""
        f = {}
        if not os.path.realpath(d).startswith(os.path.realpath(self.work)+"/"): return None
        for root, _, fs in os.walk(d):
            for x in fs:
                q = os.path.join(root, x)
                try:
                    limit -= os.path.getsize(q)
                    if limit < 0 or os.path.islink(q): return None
                    f[q] = open(q, "rb").read()
                except OSError: return None
        return f
    def _restore(self, d, f):
        if f is None: return
        for root, ds, fs in os.walk(d, topdown=False):
            for x in fs:
                if os.path.join(root, x) not in f: os.unlink(os.path.join(root, x))
            for x in ds:
                try: os.rmdir(os.path.join(root, x))
                except OSError: pass
        for q, b in f.items():
            os.makedirs(os.path.dirname(q), exist_ok=True); open(q, "wb").write(b)
    def harness(self, exe, args=(), timeout=400, env=None, tag=None, cwd=None, expect_end=True, keyprefix="", memcheck=False):
        """Run a C harness that reports through the event file VH_OUT."""
        tag = tag or os.path.basename(exe)
        cwd = cwd or tempfile.mkdtemp(prefix="run-", dir=self.work)
        ev = os.path.join(cwd, "vh_events.txt")
        if os.path.exists(ev): os.unlink(ev)
        if not self.thorough: timeout = min(timeout, 180)
        e = {"VH_OUT": ev, "VH_SEED": str(self.seed), "VH_TIER": self.tier}
        if env: e.update(env)
        vg = ["valgrind", "-q", "--log-file="+cwd+"/vg.log", "--num-callers=6"] if memcheck else []
        r = self.run(vg+[exe]+[str(a) for a in args], cwd, env=e, timeout=timeout)
        if memcheck: self.memcheck_log(cwd+"/vg.log", tag, keyprefix)
        r.cwd = cwd; r.events = []
        ended = False
        cur = ""
        if os.path.exists(ev):
            for l in open(ev, errors="replace"):
                l = l.rstrip("\n")
                k, _, rest = l.partition(" ")
                if k == "VFAIL":
                    key, _, det = rest.partition(" | ")
                    self.fail(keyprefix+key, "%s [%s args=%s]" % (det, tag, " ".join(map(str, args))))
                elif k == "VCNT":
                    n, v = rest.rsplit(" ", 1); self.count(n, int(v))
                elif k == "VCASES":
                    a, b = rest.split(); self.ncases += int(a); self.ndistinct += int(b)
                elif k == "VSAMPLE": self.sample(rest)
                elif k == "VEND": ended = True
                elif k == "VAT": cur = rest
                elif k == "VERR": self.errors.append(rest)
                else: r.events.append(l)
        r.cur = cur
        for s in r.san: self.fail(keyprefix+s, "%s at '%s'\n%s" % (tag, cur, r.err[-6000:]))
        if expect_end and not ended and not r.san:
            if r.timeout: self.fail(keyprefix+"hang:%s:%s" % (tag, _strip(cur)), "no end within %d s twice at '%s'" % (timeout, cur))
            else: self.fail(keyprefix+"died:%s:%s" % (tag, _strip(cur)), "rc=%s at '%s'\n--- stdout tail\n%s\n--- stderr tail\n%s" % (r.rc, cur, r.out[-1500:], r.err[-3000:]))
        return r
    def memcheck_log(self, path, tag, keyprefix=""):
        try: t = open(path, errors="replace").read()
        except FileNotFoundError: t = ""
        t = re.sub(r"==\d+== ?", "", t); seen = set()
        for blk in re.split(r"\n\s*\n", t):
            m = re.search(r"(uninitialised|Invalid (?:read|write|free)|Mismatched free|overlap)", blk)
            if not m: continue
            fn = [f for f in re.findall(r"(?:at|by) 0x[0-9A-F]+: ([A-Za-z_0-9.]+)", blk) if f not in ("malloc", "memcpy", "memmove", "free")]
            k = "memcheck:%s:%s" % (m.group(1).split()[0], ":".join(fn[:2]))
            if k not in seen: seen.add(k); self.fail(keyprefix+k, "%s\n%s" % (tag, blk[:1500]))
    def stop(self):
        """a violation is known and much time is used: further cases need not be looked at"""
        return time.time()-self.t0 > (3600 if self.thorough else 420) and any(not self.match_known(k, d) for k, d in list(self.failures))
    def pmap(self, fn, items, n=None):
        with ThreadPoolExecutor(n or NCPU) as ex: return list(ex.map(lambda x: None if self.stop() else fn(x), items))
    # ---- verdict
    def match_known(self, key, detail):
        for k in self.known:
            if k.get("status", "open") != "open": continue
            if any(fnmatch.fnmatchcase(key, pat) for pat in k["keys"]):
                if k.get("detail_re") and not re.search(k["detail_re"], detail): continue
                return k
        return None
    def finish(self, min_cases=1):
        new = []
        for key, det in self.failures:
            k = self.match_known(key, det)
            if k: self.known_hit.setdefault(k["id"], (k, key))
            else: new.append((key, det))
        for kid, (k, key) in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ndist = len(self.cases)+self.ndistinct
        cov = {"evaluations": self.ncases, "distinct_nontrivial": ndist, "rule": self.rule,
               "samples": self.samples or ["(none)"]}
        cov.update({"observed": dict(sorted(self.counters.items()))})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time()-self.t0, 2),
              "violations": len(new)}
        os.makedirs(VERIF+"/evidence", exist_ok=True)
        with open(VERIF+"/evidence/%s.json" % self.prop, "w") as f: json.dump(ev, f, indent=1)
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %d known, %.1f s" % (
            self.prop, self.tier, self.seed, self.ncases, ndist, len(new), len(self.known_hit), time.time()-self.t0))
        for k, v in sorted(self.counters.items()): print("   observed %-40s %d" % (k, v))
        rd = VERIF+"/evidence/replay"; os.makedirs(rd, exist_ok=True)
        path = "%s/%s.txt" % (rd, self.prop)
        if os.path.exists(path): os.unlink(path)
        if new:
            with open(path, "w") as f:
                f.write("property %s tier %s seed %d\nre-run: cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 checks/%s.py\n\n" % (
                    self.prop, self.tier, self.seed, self.seed, self.tier, self.prop))
                for key, det in new[:200]: f.write("KEY %s\n%s\n\n" % (key, det))
            seen = set()
            for key, det in new:
                if key in seen: continue
                seen.add(key)
                if len(seen) <= 15: print("  broken: %s  %s" % (key, det[:300].replace("\n", " / ")))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.exit(1)
        if self.errors:
            print("INCONCLUSIVE: "+"; ".join(self.errors[:5])); sys.exit(2)
        if self.ncases < min_cases:
            print("INCONCLUSIVE: only %d cases observed (need %d)" % (self.ncases, min_cases)); sys.exit(2)
        sys.exit(0)

def _strip(s): return re.sub(r"-?\d+(\.\d+)?", "N", s)[:60]

def main(fn, prop, **kw):
    c = Check(prop, **kw)
    try:
        fn(c)
    except BuildError as e:
        print("INCONCLUSIVE build: %s" % e)
        shutil.rmtree(c.work, ignore_errors=True); sys.exit(2)
    except SystemExit: raise
    except BaseException as e:
        import traceback; traceback.print_exc()
        c.errors.append("exception in the check: %s" % e)
        c.finish(0)   # what was observed before still counts
