#!/usr/bin/env python3
# C22: code marked for OpenMP, with every pragma switched on, under ThreadSanitizer, on a small OpenMP runtime made of pthreads; the same call or run with one thread and with several
import sys, os, re, random, importlib.util
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
X = "-DLEVEL2_Pragmas -DLEVEL3_Pragmas -DLEVEL4_Pragmas"
TS = {"TSAN_OPTIONS": "exitcode=0 report_thread_leaks=0 halt_on_error=0 history_size=3 second_deadlock_stack=0 report_signal_unsafe=0"}
spec = importlib.util.spec_from_file_location("c23", os.path.join(os.path.dirname(os.path.abspath(__file__)), "C23.py")); c23 = importlib.util.module_from_spec(spec); spec.loader.exec_module(c23)
def races(c, text, what):
    n = 0
    for blk in text.split("WARNING: ThreadSanitizer: ")[1:]:
        kind = re.sub(r"\(pid=.*", "", blk.splitlines()[0]).strip(); fr = re.findall(r"#0 (\S+) (?:\S*/)?([\w.]+\.[ch]):\d+", blk.split("Thread T")[0].split("Location is")[0]); fr = fr or re.findall(r"#\d+ (\S+) (?:\S*/)?([\w.]+\.[ch]):\d+", blk)
        k = "|".join(sorted({f.replace("SGRID_", "").split("._omp")[0]+"@"+s for f, s in fr[:2]}))
        c.fail("%s:%s" % (kind.replace(" ", "-"), k), "%s\n%s" % (what, blk[:3500])); n += 1
    return n
def harness(c, exe, part):
    r = c.harness(exe, [str(part)], timeout=800, env=TS); races(c, r.err, "part %d" % part)
NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|nan|inf")
def numbers(f):
    t = open(f, errors="replace").read(); return NUM.sub("#", t), [float(x) for x in NUM.findall(t)]
def cmp(a, b, tol):
    """differences between two output directories, compared to the largest number written (sums over threads are rounded differently)"""
    fa = sorted(f for f in os.listdir(a)); fb = sorted(f for f in os.listdir(b)); n = 0; D = []; sc = 0
    if fa != fb: return "files %s" % sorted(set(fa) ^ set(fb))[:5], 0
    for f in fa:
        if not os.path.isfile(a+"/"+f) or f.endswith(".par") or f.startswith("std"): continue
        x, y = open(a+"/"+f, "rb").read(), open(b+"/"+f, "rb").read(); n += len(x)
        if b"BINARY" in x[:300] or b"\0" in x: continue
        s, p = numbers(a+"/"+f); t, q = numbers(b+"/"+f); sc = max([sc]+[abs(v) for v in p if v == v and abs(v) < 1e300])
        if x == y: continue
        if len(p) != len(q): return "%s: %d and %d numbers" % (f, len(p), len(q)), n
        D += [(f, u, v) for u, v in zip(p, q) if u != v and not (u != u and v != v)]
    for f, u, v in D:
        if not abs(u-v) <= tol*sc: return "%s: %r with one thread, %r with several (largest number %g)" % (f, u, v, sc), n
    return None, n
def run(c, exe, S, opts, k):
    rnd = random.Random("%d-C22-%d" % (c.seed, k)); n, L, which = S[k % len(S)]; d = tempfile.mkdtemp(prefix="c22-", dir=c.work)
    t, notes = c23.shrink(rnd, L, k >= len(S), {}); P = dict(c23.parse(t)); ell = any("linSolver" in x or x.startswith("GridIterators") for x in P) or "Poisson" in P.get("physics", "") or "newton" in t.lower()
    if "Poisson" in P.get("physics", ""):
        m = [x for x in P["physics"].split() if x.startswith("Poisson")][0]; s = rnd.choice(["bicgstab", "LAPACK", "SOR", "UMFPACK", "bicgstab_with_fd_UMFPACK_precon"]); P[m+"_linSolver"] = s; P[m+"_linSolver_Precon"] = "I"; notes += " "+s
    vs = sorted({w for x in P for w in (P[x].split() if re.fullmatch(r"[0123]doutput", x) else [])}) or ["x"]
    P["1doutput"] = " ".join(vs[:6]); P["1doutiter"] = "1"; P["1doutputall"] = "yes"; P["outdir"] = "out"
    R = []
    for th in (1, rnd.choice([2, 3, 4, 6])):
        e = d+"/t%d" % th; os.makedirs(e); open(e+"/p.par", "w").write("".join("%s = %s\n" % x for x in P.items()))
        r = c.run([exe, "p.par"], e, env=dict(TS, VH_SPARSE="1", VH_THREADS=str(th), VH_SEED=str(c.seed*1000+k), OMP_NUM_THREADS=str(th)), timeout=c.tmo)
        if races(c, r.err, "%s with %d threads [%s]\n%s" % (n, th, notes, "".join("%s = %s\n" % x for x in P.items()))): pass
        if r.timeout: c.count("runs not finished in time"); break
        R.append((th, r, e+"/out"))
    if len(R) == 2:
        (_, r1, o1), (th, r2, o2) = R
        if r1.rc != r2.rc: c.fail("run-depends-on-threads", "%s [%s] ended with %s with one thread, %s with %d\n%s\n%s" % (n, notes, r1.rc, r2.rc, th, r2.out[-800:]+r2.err[-800:], P))
        elif r1.rc == 0:
            bad, bytes_ = cmp(o1, o2, 1e-5 if ell else 1e-8)
            if bad: c.fail("run-depends-on-threads", "%s [%s] with %d threads: %s\n%s" % (n, notes, th, bad, P))
            c.count("bytes of output compared", bytes_); c.count("program runs compared")
        else: c.count("runs stopped with a message")
        c.case("%s %s %d threads" % (n, notes, th), r1.rc == 0)
    shutil.rmtree(d, ignore_errors=True)
def go(c):
    b = c.build("tsan", "core", extra_dflags=X); h = b.link("c22", ["c22.c", "gomp.c"], extra=tuple(X.split()))
    exe = c.build("tsan", "main", extra_dflags=X).link("sgrid", ["main.c", "gomp.c"], extra=tuple(X.split()))
    c.no_retry = False; c.tmo = 300 if c.thorough else 25; S = [s for s in c23.setups() if s[2] == "main" and "ModeComputer" not in s[0]]; N = len(S)*(8 if c.thorough else 1)+(0 if c.thorough else len(S)//2)
    jobs = [("h", i) for i in range(120 if c.thorough else 18)]+[("r", k) for k in range(N)]
    c.no_retry = True
    c.pmap(lambda j: harness(c, h, j[1]) if j[0] == "h" else run(c, exe, S, {}, j[1]), jobs)
    if not c.counters.get("parallel regions"): c.errors.append("no parallel region was entered")
    c.finish(min_cases=100)
main(go, "C22", rule="functions with OpenMP pragmas on random grids, transforms, variables and matrices, and shipped parameter files, with 1 and 2 to 13 threads; distinct by grid, function, number of threads")
