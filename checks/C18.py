#!/usr/bin/env python3
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
OUT = ["", "radiative", "radiative_analytic", "constant"]; INN = ["", "constantExcision", "simpleExcision", "VonNeumannExcision"]; SEL = ["", "selectedconstantExcision", "selectedVonNeumannExcision"]
RK = ["euler", "rk1", "rk2", "midpoint", "rk2a", "rk3", "rk3a", "rk3b", "rk4", "rk4a", "rk5"]
def evo(c, exe, k):
    rnd = random.Random("%d-C18-%d" % (c.seed, k)); d = tempfile.mkdtemp(prefix="c18-", dir=c.work)
    meth = k % 3; out = rnd.choice([1, 3, 3, 0, 2]); inn = rnd.randint(0, 3); sel = rnd.choice([0, 0, 1, 2])
    if inn == 3 and sel == 1: inn = 0
    if sel == 0 and inn == 0: inn = 1 + k % 3
    nb = rnd.choice([1, 2]); r = 1.5
    L = ["physics = ScalarWave ADMvars", "dt = %.17g" % rnd.choice([.02, .013]), "iterations = %d" % rnd.randint(3, 6), "evolution_method = %s" % ["euler", "icn", "rk"][meth], "evolution_method_rk = %s" % rnd.choice(RK),
         "boundary = %s" % " ".join(x for x in (OUT[out], INN[inn], SEL[sel]) if x), "boundary_selectedExcisionVars = ScalarWave_psi ScalarWave_psidot", "nboxes = %d" % nb, "Coordinates_verbose = no", "Coordinates_set_bfaces = no",
         "ScalarWave_nonlin = %s" % rnd.choice(["0", "1"])]
    for b in range(nb):
        co = "SphericalDF" if b == 0 else rnd.choice(["SphericalDF", "Cartesian"])
        L += ["box%d_n1 = %d" % (b, rnd.randint(6, 9)), "box%d_n2 = %d" % (b, rnd.choice([6, 8])), "box%d_n3 = %d" % (b, rnd.choice([6, 8])), "box%d_Coordinates = %s" % (b, co), "box%d_basis1 = ChebExtrema" % b,
              "box%d_min1 = %g" % (b, r), "box%d_max1 = %g" % (b, r+3)]; r += 3
        if co == "Cartesian": L += ["box%d_basis%d = ChebExtrema\nbox%d_min%d = 1\nbox%d_max%d = 3" % (b, q, b, q, b, q) for q in (2, 3)]
        else: L += ["box%d_basis%d = Fourier\nbox%d_min%d = 0\nbox%d_max%d = 2*pi" % (b, q, b, q, b, q) for q in (2, 3)]
    if out == 2 and False: return
    open(d+"/r.par", "w").write("\n".join(L)+"\n")
    c.harness(exe, ["evo", str(c.seed*1000+k), str(meth), str(out), str(inn), str(sel), "r.par"], timeout=300, cwd=d)
def go(c):
    exe = c.build("asan", "core").link("c18", ["c18.c"])
    exer = c.build("O1", "main").link("c18", ["c18.c"])
    n = 200 if c.thorough else 24
    jobs = [(exe, i) for i in range(8)]+[(exer, 100+i) for i in range(n)]
    c.pmap(lambda j: c.harness(j[0], [str(j[1])], timeout=800) if j[1] < 100 else evo(c, j[0], j[1]-100), jobs)
    c.finish(min_cases=400)
main(go, "C18", rule="random boxes, boundary settings, variables and calls; real evolutions with every integrator; distinct by these")
