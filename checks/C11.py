#!/usr/bin/env python3
# C11: the real program with a probe module whose right hand side is known; each step is compared with textbook formulas
import sys, os, random, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import pgrid
RK = ["euler", "rk1", "rk2", "midpoint", "rk2a", "rk3", "rk3a", "rk3b", "rk4", "rk4a", "rk5"]
VARS = ["probe_u", "probe_vx", "probe_vy", "probe_vz", "probe_hxx", "probe_hxy", "probe_hxz", "probe_hyy", "probe_hyz", "probe_hzz"]
def read(log):
    r = dict(D=[], V=[], C={}, E=0, T=[], R=None)
    for l in open(log, errors="replace"):
        k, _, v = l.rstrip("\n").partition(" ")
        if k == "D": r["D"].append(v.split())
        elif k == "V": r["V"].append(v)
        elif k == "C": n, x = v.split(); r["C"][n] = r["C"].get(n, 0)+int(x)
        elif k == "E": r["E"] += 1
        elif k == "T": r["T"].append(v.split())
        elif k == "R": r["R"] = int(v)
    return r
def one(c, exe, k):
    rnd = random.Random("%d-C11-%d" % (c.seed, k))
    d = tempfile.mkdtemp(prefix="c11-", dir=c.work)
    method = rnd.choice(["rk"]*6+["icn", "icn", "euler"]); rk = RK[k % len(RK)] if method == "rk" else rnd.choice(RK)
    dt = rnd.choice([.1, .01, .03, 1e-4, .37, -.05, 1/3., .25]); end = rnd.choice(["iterations", "iterations", "finaltime", "finaltime"])
    n = rnd.randint(1, 7)
    L = ["physics = none", "dt = %.17g" % dt, "evolution_method = %s" % method, "evolution_method_rk = %s" % rk,
         "probe_seed = %d" % rnd.randint(1, 10**6), "probe_bc = %d" % rnd.choice([0, 0, 1, 2]), "probe_nl = %g" % rnd.choice([0, 1, .1]),
         "probe_subset = %s" % rnd.choice(["all", "two", "one"]), "probe_deriv = %d" % rnd.choice([0, 0, 1]), "probe_check = 1", "probe_extra = %s" % rnd.choice(["yes", "no"]),
         "evolve_persist = %s" % rnd.choice(["yes", "yes", "no"])]
    cur = rnd.random() < .3; L += ["Coordinates_set_bfaces = no"]*cur+pgrid.grid(rnd, coords=cur)
    if end == "iterations": L.append("iterations = %d" % n); exp = n
    else:
        dt = abs(dt); L[1] = "dt = %.17g" % dt
        ft = n*dt if rnd.random() < .5 else dt*(n-1+rnd.uniform(.05, .95)); L.append("finaltime = %.17g" % ft); exp = None
    if rnd.random() < .3: L.append("evolve_compute_change = %s" % " ".join(rnd.sample(VARS, rnd.randint(1, 4))))
    if rnd.random() < .2: L += ["probe_g = 1", "probe_poke = %d" % rnd.randint(0, n)]
    if random.Random("%d-dbg-%d" % (c.seed, k)).random() < .3: L.append("evolve_euler_debug = yes")  # euler only: the right hand side itself
    iters = 1
    if rnd.random() < .35:  # several methods in one process, also with growing numbers of stages
        if method == "rk": seq = [rk]+[rnd.choice(RK) for _ in range(rnd.randint(1, 3))]; L[3] = "evolution_method_rk = "+rk; L += ["iterate_parameters = yes", "iterate_parameter1 = evolution_method_rk "+" ".join(seq)]
        else: seq = [method]+[rnd.choice(["rk", "icn", "euler"]) for _ in range(rnd.randint(1, 3))]; L += ["iterate_parameters = yes", "iterate_parameter1 = evolution_method "+" ".join(seq)]
        iters = len(seq)
    open(d+"/p.par", "w").write("\n".join(L)+"\n")
    r = c.run([exe, d+"/log", "p.par"], d, timeout=200)
    desc = "case %d: %s" % (k, "; ".join(L))
    for x in r.san: c.fail(x, desc+"\n"+r.err[-3000:])
    q = read(d+"/log")
    for v in q["V"]: c.fail(v.partition(" | ")[0], v+"  in "+desc)
    if r.rc != 0 or q["E"] != iters or q["R"] != 0:
        if not r.san: c.fail("hang" if r.timeout else "run ended early", "rc=%s ends=%d of %d %s\n%s" % (r.rc, q["E"], iters, desc, r.out[-800:]+r.err[-800:]))
    for a, b in q["C"].items(): c.count(a, b)
    # bookkeeping: iterations in sequence, the run ends where requested
    seqs = []; last = None
    for it, t, g, h in q["D"]:
        it = int(it)
        if it == 0: seqs.append([])
        seqs[-1:] and seqs[-1].append((it, float.fromhex(t)))
    if len(seqs) != iters: c.fail("number of evolutions", "%d instead of %d: %s" % (len(seqs), iters, desc))
    for s in seqs:
        if [x for x, _ in s] != list(range(len(s))): c.fail("iterations out of sequence", "%s: %s" % (s[:12], desc))
        for it, t in s:
            if abs(t-it*dt) > 1e-12*(1+abs(it*dt)): c.fail("time of iteration", "it %d time %r dt %r: %s" % (it, t, dt, desc))
        e = len(s)-1
        if end == "iterations":
            if e != exp: c.fail("ends at the requested iteration", "%d steps instead of %d: %s" % (e, exp, desc))
        else:
            # the run ends at the step nearest to the final time
            if not abs(s[-1][1]-ft) <= dt*.5000001: c.fail("ends at the requested time", "%d steps of %r for final time %r: %s" % (e, dt, ft, desc))
    c.case(desc, q["C"].get("compared-values", 0) > 0); c.count("runs of "+(method if method != "rk" else "rk/"+rk))
    shutil.rmtree(d, ignore_errors=True)
def go(c):
    exe = c.build("asan", "core").link("probe", ["probe.c"])
    # an unknown method is refused
    d = tempfile.mkdtemp(dir=c.work)
    for i, (m, rk) in enumerate([("rk", "rk7"), ("leapfrog", "rk4"), ("rk", "")]):
        open(d+"/u%d.par" % i, "w").write("physics = none\nnboxes = 1\nbox0_n1 = 3\nbox0_n2 = 3\nbox0_n3 = 3\ndt = 0.1\niterations = 2\nevolution_method = %s\n%s" % (m, "evolution_method_rk = %s\n" % rk if rk else "evolution_method_rk = none\n"))
        r = c.run([exe, d+"/log%d" % i, "u%d.par" % i], d)
        if r.rc == 0 or r.san: c.fail("unknown integrator", "%s %s: rc %s %s" % (m, rk, r.rc, r.san))
        c.count("unknown integrators tried")
    c.pmap(lambda k: one(c, exe, k), range(20000 if c.thorough else 700))
    c.finish(min_cases=100)
main(go, "C11", rule="random grids, step sizes, right hand sides (nonlinear, time dependent, with derivatives), conditions, subsets of variables, final times and sequences of methods; "
     "non-trivial: at least one step was compared with the formulas")
