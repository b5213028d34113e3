#!/usr/bin/env python3
# C23: the shipped parameter files, as shipped (shrunk) and with other resolutions, options and output, run by sanitized and valgrind-monitored programs
import sys, os, random, re, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
ALT = ("PN_CircularOrbit_GWs", "testwave")
def options():
    """parameters with a list of choices in their description"""
    o = {}
    for f in glob.glob(REPO+"/src/*/*/*.c")+glob.glob(REPO+"/src/*/*/*/*.c"):
        t = open(f, errors="replace").read()
        for m in re.finditer(r'AddPar\(\s*"([^"]+)"\s*,\s*"([^"]*)"\s*,\s*((?:"[^"]*"\s*)+)\)', t):
            d = "".join(re.findall(r'"([^"]*)"', m[3])); ch = re.search(r"\[([^\]]*)\]", d)
            if not ch: continue
            v = [x.strip() for x in ch[1].replace(";", ",").split(",")]; v = [x for x in v if re.fullmatch(r"[-+\w./^*]+( [-\w./]+)*", x)]
            if len(v) > 1: o.setdefault(m[1], sorted(set(v+[m[2]]*bool(m[2]))))
    return o
SKIP = re.compile(r"outdir|iterate_parameter|checkpoint|restart|physics|evolve_persist|_verbose|backup|BACKUP|NRPsi4|^grid$|MPI|OpenMP|omp|sigma_pm_pointers")
def parse(text):
    L = []
    for l in text.splitlines():
        l = l.split("#")[0].strip()
        if "=" in l: k, v = l.split("=", 1); L.append([k.strip(), v.strip()])
    return L
EXTRA = {  # modules without a parameter file of their own
"ScalarWave": "physics = ScalarWave ADMvars\nnboxes = 1\nbox0_Coordinates = SphericalDF\nbox0_n1 = 8\nbox0_n2 = 8\nbox0_n3 = 6\nbox0_basis1 = ChebExtrema\nbox0_min1 = 0.5\nbox0_max1 = 3\nbox0_basis2 = Fourier\nbox0_min2 = 0\nbox0_max2 = 2*pi\nbox0_basis3 = Fourier\nbox0_min3 = 0\nbox0_max3 = 2*pi\ndt = 0.01\niterations = 2\nboundary = radiative\n1doutiter = 1\n1doutput = ScalarWave_psi ScalarWave_Pi ScalarWave_rho\n0doutiter = 1\n0doutput = ScalarWave_psi\n",
"Z4secondO": "physics = ADMvars SingleBH Z4secondO\nBHmass1 = 1\nBHsx1 = 0.1\nBHsz1 = 0.3\nnboxes = 1\nbox0_Coordinates = SphericalDF\nbox0_n1 = 8\nbox0_n2 = 8\nbox0_n3 = 6\nbox0_basis1 = ChebExtrema\nbox0_min1 = 1.8\nbox0_max1 = 5\nbox0_basis2 = Fourier\nbox0_min2 = 0\nbox0_max2 = 2*pi\nbox0_basis3 = Fourier\nbox0_min3 = 0\nbox0_max3 = 2*pi\ndt = 0.01\niterations = 2\nboundary = radiative\n1doutiter = 1\n1doutput = ham momx gxx Z4secondO_Theta alpha\n",
"Z4TestID": "physics = ADMvars TestID Z4secondO\nTestID_type = 1dGaugeWave\nTestID_amplitude = 0.1\nnboxes = 1\nbox0_n1 = 9\nbox0_n2 = 1\nbox0_n3 = 1\nbox0_basis1 = Fourier\nbox0_min1 = 0\nbox0_max1 = 1\nbox0_basis2 = Fourier\nbox0_min2 = 0\nbox0_max2 = 1\nbox0_basis3 = Fourier\nbox0_min3 = 0\nbox0_max3 = 1\ndt = 0.01\niterations = 3\n1doutiter = 1\n1doutput = ham momx gxx Z4secondO_Theta alpha\n",
}
def setups():
    S = []
    for p in sorted(glob.glob(REPO+"/src/**/*.par", recursive=True)+glob.glob(REPO+"/Attic/ParFiles/*/*.par")):
        n = os.path.relpath(p, REPO); L = parse(open(p, errors="replace").read()); ph = dict(L).get("physics", "").split()
        if any(x in ph for x in ("BNSdata",)) or "match.par" in n: continue
        S.append((n, L, "alt" if any(a in n for a in ("PN_Circ", "WaveTest")) else "main"))
    for n, t in EXTRA.items(): S.append((n, parse(t), "main"))
    return S
def shrink(rnd, L, mutate, opts):
    d = dict((k, v) for k, v in L); notes = []
    nb = int(re.match(r"\d+", d.get("nboxes", "1"))[0]) if re.match(r"\d+", d.get("nboxes", "1")) else 1
    ell = "Poisson" in d.get("physics", ""); cap = (12 if nb <= 4 else 8) if not ell else 8 if nb <= 2 else 4
    big = rnd.random() < .15
    def res(v): 
        try: n = int(v)
        except ValueError: return v
        if n <= 1: return v
        if not mutate: return str(n if n <= cap else cap-(cap-n) % 4 if cap-(cap-n) % 4 > 2 else cap-(cap-n) % 4+4)
        m = rnd.choice([3, 4, 5, 6, 7, 8]+([9, 10, 12] if nb <= 4 else []) if not ell else [3, 4, 5, 6] if nb <= 2 else [3, 4, 4, 5]); 
        return str(m if rnd.random() < .7 else min(n, cap))
    seen = {}
    def dirres(k, v):
        # all boxes of one direction keep the same number of points, as shipped
        key = (k[-1], v) if rnd_same else k+str(len(seen)); 
        if key not in seen: seen[key] = res(v)
        return seen[key]
    rnd_same = rnd.random() < .8 or ell   # box to box conditions of the elliptic modules need equal numbers of points
    out = []
    if not ("iterate_parameters", "yes") in [(k, v) for k, v in L] or mutate:   # points in case the parameters are not iterated
        for k, v in L:
            w = v.split()
            if re.fullmatch(r"iterate_parameter\d+", k) and len(w) > 1 and w[0] not in d and rnd.random() < .97: out.append([w[0], dirres(w[0], w[1])])
    for k, v in L:
        if re.fullmatch(r"(box\d+_)?n[123]|nxyz", k): v = dirres(k, v)
        elif k.startswith("iterate_parameter"):
            if k == "iterate_parameters": v = "no" if mutate and rnd.random() < .5 else v
            else:
                w = v.split(); vals = w[1:3]
                if re.fullmatch(r"(box\d+_)?n[123]", w[0]): vals = [dirres(w[0], x) for x in vals]
                elif w[0] in ("iterations",): vals = ["1", "2"]
                elif w[0] == "finaltime": vals = ["0.001", "0.002"]
                v = " ".join([w[0]]+vals)
        elif k == "iterations": v = str(min(int(v), rnd.choice([1, 2, 3]))) if v.isdigit() else v
        elif k == "finaltime":
            try: dt = float(d.get("dt", "1")); v = "%g" % min(float(v), dt*rnd.choice([1, 2, 3]))
            except ValueError: v = "0.01"
        elif k == "ParManipulator_requiredtime": v = "0"
        elif k.endswith("_linSolver_itmax"): v = str(min(int(v), 25))
        elif k.endswith("_itmax"): v = str(min(int(v), rnd.choice([1, 2])))
        elif mutate and ("templates" in v or "ZIB" in v): v = rnd.choice(["UMFPACK", "bicgstab", "SPQR", "WTsolver", "SOR", v])
        elif k == "PN_CircularOrbit_GWs_t2": v = str(rnd.choice([20, 50, 101]))
        elif k == "PN_CircularOrbit_GWs_lmax": v = str(min(int(v), 4))
        elif re.fullmatch(r"[0123]douttime", k): v = d.get("dt", "1") if rnd.random() < .7 else v
        out.append([k, v])
    if "PN_CircularOrbit_GWs" in d.get("physics", "") : out += [["PN_CircularOrbit_GWs_sphere_Lmax", "6"]] if "PN_CircularOrbit_GWs_sphere_Lmax" not in d else []
    if mutate:
        ph = d.get("physics", "").split()
        mine = [o for o in opts if not SKIP.search(o) and (o.split("_")[0] in ph or o in d or rnd.random() < .25)]
        for o in rnd.sample(mine, min(len(mine), rnd.choice([0, 1, 1, 2, 3]))):
            v = rnd.choice(opts[o]); out.append([o, v]); notes.append("%s=%s" % (o, v))
        if "evolution_method" in d or "dt" in d:
            if rnd.random() < .4: x = rnd.choice(["euler", "rk1", "midpoint", "rk3", "rk4", "rk5"]); out += [["evolution_method", "rk"], ["evolution_method_rk", x]]; notes.append(x)
            elif rnd.random() < .2: out.append(["evolution_method", "icn"]); notes.append("icn")
        if "boundary" in d or rnd.random() < .1:
            if rnd.random() < .5: x = rnd.choice(["", "radiative", "constant", "simpleExcision", "constantExcision", "simpleExcision VonNeumannExcision", "radiative selectedconstantExcision", "radiative constantExcision"]); out.append(["boundary", x]) if x else 0; notes.append("boundary="+x)
        vs = sorted({w for k, v in L if re.fullmatch(r"[0123]doutput", k) for w in v.split()}) or ["x", "y"]
        for o in "0123":
            if rnd.random() < .4:
                out += [["%sdoutput" % o, " ".join(rnd.sample(vs, min(len(vs), rnd.randint(1, 4))))], ["%sdoutiter" % o, "1"], ["%sdoutputall" % o, rnd.choice(["yes", "no"])]]; notes.append(o+"d")
                if o == "3": x = rnd.choice(["text", "vtk", "vtk text", "vtk binary", "dump", "vtk float"]); out.append(["3dformat", x]); notes.append(x)
        for b in range(nb):
            for i in "123":
                if rnd.random() < .15: x = rnd.choice(["X%d" % b]) ; out.append(["output%s0_box%d" % ("XYZ"[int(i)-1], b), "%g" % rnd.uniform(-2, 5)])
                bas = d.get("box%d_basis%s" % (b, i))
                if bas and rnd.random() < .08:
                    x = rnd.choice({"Fourier": ["fd2_periodic", "Fourier"], "ChebExtrema": ["ChebZeros", "fd2_onesided"], "ChebZeros": ["ChebExtrema"]}.get(bas, [bas])); out.append(["box%d_basis%s" % (b, i), x]); notes.append("box%d_basis%s=%s" % (b, i, x))
                if rnd.random() < .08: x = rnd.choice(["FFTW3", "NUMREC_FFT", "matrix"]); out.append(["box%d_TransformType%s" % (b, i), "2 "+x]); notes.append("TransformType "+x)
        if rnd.random() < .15: out += [["checkpoint", "yes"], ["checkpoint_dt", "0"]]; notes.append("checkpoint")
    # later lines replace earlier ones
    last = {}
    for k, v in out: last[k] = v
    return "".join("%s = %s\n" % kv for kv in last.items()), "; ".join(notes)
def one(c, exes, S, opts, k, vg=False):
    n, L, which = S[k % len(S)]; rnd = random.Random("%d-C23-%d" % (c.seed, k)); mutate = k >= len(S)
    d = tempfile.mkdtemp(prefix="c23-", dir=c.work); t, notes = shrink(rnd, L, mutate, opts)
    open(d+"/p.par", "w").write(t); exe = exes[("vg-" if vg else "")+which]; desc = "%s%s [%s]" % ("valgrind " if vg else "", n, notes)
    cmd = [exe, "p.par"]
    if vg: cmd = ["valgrind", "-q", "--log-file="+d+"/vg.log", "--num-callers=6"]+cmd
    r = c.run(cmd, d, timeout=c.tmo)
    for x in r.san: c.fail(x, "%s\n--- parameter file\n%s\n--- stderr\n%s" % (desc, t, r.err[-5000:]))
    if vg: c.memcheck_log(d+"/vg.log", desc+"\n"+t)
    if r.timeout: c.count("runs not finished in time")
    elif r.rc == -6 and dict(parse(t)).get("errorexit") == "abort" and re.search(r"^Error: ", r.out+r.err, re.M): c.count("runs stopped with a message and abort as asked for")
    elif r.rc == -6 and "Numerical Recipes run-time error" in r.out+r.err: c.count("runs stopped with a message and abort of the numerical recipes")
    elif r.rc < 0 or r.rc in (99, 134, 139):
        if not r.san: c.fail("signal %d in %s" % (r.rc, n), "%s\n%s\n%s" % (desc, t, r.out[-1500:]+r.err[-1500:]))
    elif r.rc != 0:
        c.count("runs stopped with a message")
        if not re.search(r"[Ee]rror|not implemented|unknown|abort|cannot|can't|too ", r.out[-4000:]+r.err[-4000:]): c.fail("stopped without message", "%s rc=%d\n%s\n%s" % (desc, r.rc, t, r.out[-1500:]+r.err[-1500:]))
        if os.environ.get("C23_SHOW"): print("STOP", desc, (r.out+r.err).strip().splitlines()[-2:])
    else: c.count("runs completed"); c.count("of "+dict(L).get("physics", "").split()[-1])
    if r.rc != 0 and not mutate and not r.timeout: c.count("shipped set-up stopped: "+n)
    if os.environ.get("C23_SHOW") and r.wall > 15: print("SLOW %.0f %s" % (r.wall, desc))
    c.case(desc, not r.timeout); shutil.rmtree(d, ignore_errors=True)
    return 1e9 if r.timeout or r.rc != 0 else r.wall
def go(c):
    opts = options(); S = setups(); c.count("set-ups", len(S)); c.count("options varied", len(opts)); c.no_retry = True; c.tmo = 400 if c.thorough else 45
    exes = {}
    for w in ("main", "alt"): exes[w] = c.build("asan", w).link("sgrid", ["main.c"]); exes["vg-"+w] = c.build("vg", w).link("sgrid", ["main.c"])
    nmut = int(os.environ.get("C23_N", 20*len(S) if c.thorough else 2*len(S)))
    T = c.pmap(lambda k: one(c, exes, S, opts, k), range(len(S)+nmut))
    # the quick ones again under valgrind, which sees the use of memory that was never set
    fast = [k for k in range(len(T)) if T[k] is not None and T[k] < float(os.environ.get("C23_T", 1.5))]; random.Random(c.seed).shuffle(fast)
    c.pmap(lambda k: one(c, exes, S, opts, k, vg=True), fast[:int(os.environ.get("C23_V", 400 if c.thorough else 24))])
    c.finish(min_cases=60)
if __name__ == "__main__":
    main(go, "C23", rule="every shipped parameter file shrunk, and variations with random resolution, listed options, integrators, boundary conditions, bases, transforms and output; non-trivial: the run ended within its time")
