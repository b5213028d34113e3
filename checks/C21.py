#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
def go(c):
    old = ("src/utility/NumericUtils",)
    def link(variant): return [c.build(variant, "core").link("c21", ["c21.c"]), c.build(variant, "core", extra_mods=old).link("c21o", ["c21o.c"])]
    A = link("asan"); P = link("O1"); V = link("vg")
    n = 200 if c.thorough else 24
    jobs = [(V[k], 900+2*i+k, True) for k in (0, 1) for i in range(8 if c.thorough else 2)]
    jobs += [(A[k], i, False) for k in (0, 1) for i in range(8)]+[(P[k], 8+n*k+i, False) for k in (0, 1) for i in range(n)]
    def run(j):
        d = tempfile.mkdtemp(prefix="c21-", dir=c.work); c.harness(j[0], [str(j[1])], timeout=800, cwd=d, memcheck=j[2])
    c.pmap(run, jobs); c.finish(min_cases=5000)
main(go, "C21", rule="random functions, brackets, tolerances, limits, matrices, ODE systems, switching parameters, in both numerics modules; distinct by these")
