#!/usr/bin/env python3
# C06: uninterrupted runs of the real program compared with runs that are stopped or killed and resumed, bit for bit
import sys, os, random, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import pgrid
RK = ["euler", "rk1", "rk2", "midpoint", "rk2a", "rk3", "rk3a", "rk3b", "rk4", "rk4a", "rk5"]
KEEP = "checkpoint finaltime iterations outdir parameterfile iterate_parameters checkpoint_no_read_parlist checkpoint_DeltaT checkpoint_previous sgrid_options".split()
def read(log):
    r = dict(F={}, G={}, P={}, T=None, E=0, R=None, B=[], D=[])
    for l in open(log, errors="replace"):
        k, _, v = l.rstrip("\n").partition(" ")
        if k in "FG" and v: n, b, h = v.split(); r[k][n+":"+b] = h
        elif k == "P": a, _, b = v.partition("="); r["P"][a] = b
        elif k == "T": r["T"] = v
        elif k == "B": r["B"].append(v)
        elif k == "D": r["D"].append(v)
        elif k == "E": r["E"] += 1
        elif k == "R": r["R"] = int(v)
    return r
def files(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            if f in ("stdout", "stderr") or f.startswith(("checkpoint.", "stdout.")) or f.endswith(".par"): continue
            out[os.path.relpath(os.path.join(root, f), d)] = open(os.path.join(root, f), "rb").read()
    return out
OLDPARS = {"probe_q": "q0", "probe_qq": "1 2 3", "probe_pq": "u - v", "probe_qp": "", "probe_q2": "0.1"}
def probe_par(rnd, k):
    method = rnd.choice(["rk", "rk", "icn", "euler"]); dt = rnd.choice([.1, .01, 1/3., .0625, .0371])
    L = ["physics = none", "dt = %.17g" % dt, "evolution_method = %s" % method, "evolution_method_rk = %s" % RK[k % len(RK)],
         "probe_seed = %d" % rnd.randint(1, 10**6), "probe_bc = %d" % rnd.choice([0, 1, 2]), "probe_nl = 1", "probe_subset = %s" % rnd.choice(["all", "two", "one"]),
         "probe_deriv = %d" % rnd.choice([0, 1]), "evolve_persist = %s" % rnd.choice(["yes", "no"]), "probe_g = 1"]
    cs = rnd.choice([0]*5+[13, 26])
    if cs:
        L += ["nboxes = %d" % cs, "probe_cs = %d" % cs, "Coordinates_verbose = no"]
        n = [rnd.randint(4, 5) for _ in range(3)]
        for b in range(cs): L += ["box%d_n%d = %d" % (b, d, n[d-1]) for d in (1, 2, 3)]+["box%d_basis%d = ChebExtrema" % (b, d) for d in (1, 2, 3)]
    else:
        cur = rnd.random() < .6; L += ["Coordinates_set_bfaces = no"]*cur+pgrid.grid(rnd, coords=cur, nmax=3)
    nb = int([l for l in L if l.startswith("nboxes")][0].split("=")[1])
    for dim in "0123":
        if dim == "0" and "fd2" in " ".join(L): continue   # no integrals with these bases
        if rnd.random() < (.6 if dim < "3" else .2) and not cs:
            L.append("%sdoutput = %s" % (dim, " ".join(rnd.sample(["probe_u", "probe_vx", "probe_guard", "probe_acc"], rnd.randint(1, 3)))))
            L.append(rnd.choice(["%sdoutiter = %d" % (dim, rnd.randint(1, 3)), "%sdouttime = %.17g" % (dim, dt*rnd.randint(1, 3))]))
            if rnd.random() < .5: L.append("%sdoutputall = yes" % dim)
    add = ["probe_acc"]
    if rnd.random() < .5:   # any component stands for its variable
        L.append("probe_hist = 1"); add += rnd.sample(["probe_cx", "probe_cy", "probe_cz"], rnd.randint(1, 3)); rnd.shuffle(add)
    L += rnd.choice([["checkpoint_variables = auto", "checkpoint_additional_variables = "+" ".join(add)], ["checkpoint_variables = all"]])
    L += ["%s = %s" % (p, v) for p, v in OLDPARS.items()]
    return L, dt
def diff(c, A, B, desc, allow=()):
    for t in ("F", "B", "T", "G"):
        if A[t] != B[t]:
            what = [(n, A[t].get(n), B[t].get(n)) for n in sorted(set(A[t]) | set(B[t])) if A[t].get(n) != B[t].get(n)] if isinstance(A[t], dict) else (A[t], B[t])
            c.fail({"F": "final variables differ", "B": "boxes differ", "T": "final time or iteration differs", "G": "other variables differ"}[t], "%s\n%s" % (str(what)[:800], desc)); return False
    dp = [(n, A["P"].get(n), B["P"].get(n)) for n in sorted(set(A["P"]) | set(B["P"])) if A["P"].get(n) != B["P"].get(n) and n not in KEEP and n not in allow]
    if dp: c.fail("parameters differ", "%s %s" % (dp[:6], desc)); return False
    return True
def one(c, exe, k, real=None):
    rnd = random.Random("%d-C06-%d" % (c.seed, k))
    top = tempfile.mkdtemp(prefix="c06-", dir=c.work); allow = set()
    if real: name, text, dt = real; L = text.strip().split("\n")
    else: name = "probe"; L, dt = probe_par(rnd, k)
    N = rnd.randint(3, 7 if not real else 4); di = rnd.choice([1, 1, 2, 3]); rit = rnd.choice([1, 1, 1, 0, -1]) if not real else [0, 1, -1][(k-10**6)//len(REAL) % 3]
    ckdt = rnd.random() < .25
    L += [rnd.choice(["checkpoint_dt = %.17g", "checkpoint_dt = %.15g"]) % (di*dt)] if ckdt else ["checkpoint_di = %d" % di]
    L += ["checkpoint_restart_it = %d" % rit]
    elsewhere = rnd.random() < .15
    if elsewhere: L += ["checkpoint_outdir = ck", "checkpoint_indir = ck"]
    if not real and rnd.random() < .4: L.append("probe_poke = %d" % rnd.randint(0, N-1))
    body = "\n".join(L)+"\n"
    def start(d, endline, extra=(), opts=(), env=None, kill=None, log="log"):
        open(d+"/r.par", "w").write(body+endline+"\n"+"\n".join(extra)+"\ncheckpoint = yes\n")
        if elsewhere: os.makedirs(d+"/ck", exist_ok=True)
        if os.path.exists(d+"/"+log): os.unlink(d+"/"+log)
        cmd = [exe, d+"/"+log, "r.par"]+list(opts)
        if kill is not None:
            e = dict(os.environ); e.update({"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "ASAN_OPTIONS": "detect_leaks=0:exitcode=99"})
            p = subprocess.Popen(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            t0 = time.time()
            while time.time()-t0 < 100 and p.poll() is None:   # kill when the log has reached step kill
                try: n = sum(1 for l in open(d+"/"+log) if l.startswith("D "))
                except OSError: n = 0
                if n > kill: break
                time.sleep(.002)
            time.sleep(rnd.random()*.01)
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait(); return None
        return c.run(cmd, d, env=env, timeout=300)
    def ok(r, d, what, desc):
        for x in r.san: c.fail(x, desc+"\n"+r.err[-3000:])
        if r.rc != 0:
            if not r.san: c.fail("hang" if r.timeout else "%s failed" % what, "rc=%s %s\n%s" % (r.rc, desc, r.out[-700:]+r.err[-700:]))
            return None
        q = read(d+"/log")
        if q["E"] != 1: c.fail("%s did not end" % what, desc); return None
        f = d+("/ck" if elsewhere else "/r")+"/checkpoint.0"; it = int(q["T"].split()[0])   # the newest checkpoint is that of the last multiple of the interval
        try: have = int(re.search(rb"iteration = (\d+)", open(f, "rb").read(300)).group(1))
        except OSError: have = None
        want = it-it%di
        if want == 0 and rit > 0: want = None
        if have != want: c.fail("checkpoint written at the wrong time", "newest is of iteration %s instead of %s after %s\n%s" % (have, want, what, desc)); return None
        c.count("checkpoint times compared")
        return q
    byiter = rnd.random() < .6
    end = (lambda n: "iterations = %d" % n) if byiter else (lambda n: "finaltime = %.17g" % (n*dt))
    a = top+"/a"; b = top+"/b"; os.makedirs(a); os.makedirs(b)
    base = "%s case %d N=%d di=%d restart_it=%d %s\n%s" % (name, k, N, di, rit, end(N), body)
    A = ok(start(a, end(N)), a, "uninterrupted run", base)
    if A is None: return
    mode = rnd.choice(["stop"]*5+["kill", "kill", "DeltaT", "keep", "prev"]) if not real else rnd.choice(["stop", "stop", "prev"])
    stops = sorted(rnd.sample(range(max(1, di if rit > 0 or True else 1), N), min(rnd.randint(1, 3), N-max(1, di)))) if N > max(1, di) else []
    if not stops: return
    if elsewhere and mode in ("kill",): mode = "stop"
    keep = rnd.sample(sorted(OLDPARS), rnd.randint(0, 3)) if not real else []   # settings the user changes on resuming, and others that must come from the checkpoint
    if keep: body += "checkpoint_no_read_parlist = checkpoint finaltime iterations outdir parameterfile iterate_parameters checkpoint_no_read_parlist %s\n" % " ".join(keep)
    allow.update(keep)
    # with all variables in the checkpoint, also the box itself is that of the checkpoint
    move = not real and "checkpoint_variables = all" in body and "Coordinates_set_bfaces = no" in body and rnd.random() < .5
    desc = "mode=%s stops=%s new=%s move=%s" % (mode, stops, keep, move)+base
    exact = True; resumed = 0; lastck = None
    if mode == "kill":
        start(b, end(N), kill=stops[0]); exact = False
        hadck = os.path.exists(b+"/r/checkpoint.0"); c.count("kills"); 
        B = ok(start(b, end(N)), b, "resume after kill", desc)
        if B is None: return
        resumed = hadck
    elif mode == "DeltaT":
        m = stops[0]; m -= m % di
        if m < di: return
        dT = ["checkpoint_DeltaT = %.17g" % ((N-m)*dt)]
        if ok(start(b, end(m), extra=dT), b, "first part", desc) is None: return
        B = ok(start(b, end(m+1), extra=dT), b, "resume", desc)
        if B is None: return
        resumed = 1; allow.update(["finaltime", "iterations"])
    else:
        seq = stops+[N]
        for i, m in enumerate(seq):
            extra = ["checkpoint_previous = yes"] if mode == "prev" else []
            opts = []
            if i and mode == "keep":
                shutil.rmtree(b+"/r_previous", ignore_errors=True); os.rename(b+"/r", b+"/r_previous"); opts = ["--keep_previous"]
            if i: extra += ["%s = n%d" % (p, i) for p in OLDPARS if not real]
            if i and move: extra += ["box0_max1 = %.17g" % (float(re.search(r"box0_max1 = (\S+)", body).group(1))*1.01)]
            B = ok(start(b, end(m), extra=extra, opts=opts), b, "part %d" % i, desc)
            if B is None: return
            for p, v in OLDPARS.items():
                if real: break
                want = "n%d" % i if i and p in keep else v
                if B["P"].get(p) != want: c.fail("parameter after resuming", "%s = %r instead of %r in part %d: %s" % (p, B["P"].get(p), want, i, desc)); return
                c.count("parameters kept or restored")
            if i == 0: resumed = 0
            else: resumed += 1
            if i < len(seq)-1 and m % di: exact = False
            if int(B["T"].split()[0]) != m: c.fail("part ends at the wrong iteration", "%s instead of %d: %s" % (B["T"], m, desc)); return
    diff(c, A, B, desc, allow)
    fa, fb = files(a+"/r"), files(b+"/r")
    if mode != "DeltaT" or True:
        for f in sorted(set(fa) | set(fb)):
            x, y = fa.get(f), fb.get(f)
            if x == y: c.count("output files equal"); continue
            if x is None or y is None:
                # files that only name an iteration may be left over from steps after the last checkpoint; all of the uninterrupted run must exist
                if y is None: c.fail("output file missing after resuming", "%s: %s" % (f, desc)); break
                c.fail("additional output file after resuming", "%s: %s" % (f, desc)); break
            if exact: c.fail("output differs after resuming", "%s (%d and %d bytes): %s" % (f, len(x), len(y), desc)); break
            if mode != "kill" and set(x.split(b"\n")) != set(y.split(b"\n")): c.fail("output lines differ after resuming", "%s: %s" % (f, desc)); break
    c.case(desc, bool(resumed)); c.count("resumes", int(resumed)); c.count("mode "+mode)
    if resumed: c.count("final arrays compared bit for bit", len(A["F"]))
    shutil.rmtree(top, ignore_errors=True)
GRIDC = "nboxes = 1\nbox0_n1 = 8\nbox0_n2 = 4\nbox0_n3 = 4\nbox0_Coordinates = Cartesian\nbox0_basis1 = Fourier\nbox0_basis2 = Fourier\nbox0_basis3 = Fourier\nbox0_min1 = 0\nbox0_max1 = 1\nbox0_min2 = 0\nbox0_max2 = 1\nbox0_min3 = 0\nbox0_max3 = 1\n"
GRIDS = "nboxes = 1\nbox0_n1 = 8\nbox0_n2 = 8\nbox0_n3 = 8\nbox0_Coordinates = SphericalDF\nbox0_basis2 = Fourier\nbox0_basis3 = Fourier\nbox0_min1 = 1.8\nbox0_max1 = 6\nbox0_min2 = 0\nbox0_max2 = 2*pi\nbox0_min3 = 0\nbox0_max3 = 2*pi\n"
BSSN = "evolution_method = %s\nBSSN_enforce_AlgConstr = yes\nBSSN_subtractA = yes\nBSSN_lapse = %s\nBSSN_shift = %s\nBSSN_filter_vars = %s\nBSSN_useDD = yes\n0doutiter = 1\n0doutput = ham momx\n0doutputall = yes\n1doutiter = 1\n1doutput = alpha gxx BSSN_K ham\n1doutputall = yes\n"
REAL = [
 ("GaugeWave", "physics = ADMvars TestID BSSN\ndt = 0.01\nTestID_type = 1dGaugeWave\nTestID_amplitude = 1e-2\n"+GRIDC+BSSN % ("rk", "harmonic addliealpha", "gamma0", "all")+"BSSN_filter_type = X2/3-1\nBSSN_filter_time = afterRHS afterBC\nevolve_compute_change = alpha BSSN_K\n", .01),
 ("RandomNoise", "physics = ADMvars TestID BSSN\ndt = 0.005\nTestID_type = 1dLinearWave\nTestID_amplitude = 1e-8\n"+GRIDC+BSSN % ("icn", "1+log", "gamma0", "no"), .005),
 ("KS", "physics = ADMvars SingleBH BSSN\ndt = 0.01\nSingleBH_type = KerrSchild\nSingleBH_ConformalFactor = no\nSingleBH_initial_lapse = donothing\nSingleBH_initial_shift = donothing\nboundary = radiative\n"+GRIDS+BSSN % ("rk", "1+log", "gamma0", "no"), .01),
 ("KSanalytic", "physics = ADMvars SingleBH BSSN\ndt = 0.01\nSingleBH_type = KerrSchild\nSingleBH_ConformalFactor = no\nSingleBH_initial_lapse = donothing\nSingleBH_initial_shift = donothing\nboundary = radiative_analytic\n"+GRIDS+BSSN % ("rk", "1+log", "gamma0", "no"), .01),
 ("ScalarOnKerr", "physics = ScalarOnKerr\ndt = 0.02\nboundary = radiative\nevolution_method = rk\n0doutiter = 1\n0doutput = ScalarOnKerr_psi\n0doutputall = yes\n1doutiter = 1\n1doutput = ScalarOnKerr_psi ScalarOnKerr_Pi\n1doutputall = yes\n"+GRIDS, .02),
 ("ScalarWave", "physics = ScalarWave ADMvars\ndt = 0.02\nboundary = radiative\nevolution_method = rk\n0doutiter = 1\n0doutput = ScalarWave_psi\n0doutputall = yes\n"+GRIDS, .02),
]
def go(c):
    exe = c.build("asan", "core").link("probe", ["probe.c"]); exer = c.build("O1", "main").link("fdump", ["fdump.c"])
    n = 6000 if c.thorough else 330; m = 60 if c.thorough else 2
    def do(i):
        if i < m*len(REAL): return one(c, exer, 10**6+i, REAL[i % len(REAL)])
        return one(c, exe, i)
    c.pmap(do, range(n+m*len(REAL)))
    c.finish(min_cases=50)
main(go, "C06", rule="random probe evolutions (grids, coordinates, integrators, outputs, checkpoint options) and real physics, stopped or killed and resumed up to three times; "
     "non-trivial: the run was really resumed from a checkpoint")
