#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
def go(c):
    old = ("src/utility/NumericUtils",)
    sets = [(c.build("asan", "core").link("c20", ["c20.c"]), 0), (c.build("asan", "core", extra_mods=old).link("c20", ["c20.c"]), 0),
            (c.build("O1", "core").link("c20", ["c20.c"]), 1), (c.build("O1", "core", extra_mods=old).link("c20", ["c20.c"]), 1)]
    n = 60 if c.thorough else 5
    jobs = []
    for k, (exe, opt) in enumerate(sets):
        parts = range(9) if not opt else [0, 1]+list(range(9+n*k, 9+n*(k+1)))
        if not opt and not c.thorough: parts = [0, 2, 3]+[4+k*2+i for i in range(5)]
        jobs += [(exe, p) for p in parts]
    jobs.sort(key=lambda j: j[1] not in (2, 3))
    def run(j):
        d = tempfile.mkdtemp(prefix="c20-", dir=c.work); c.harness(j[0], [str(j[1])], timeout=800, cwd=d)
    c.pmap(run, jobs); c.finish(min_cases=300)
main(go, "C20", rule="random nonlinear systems on random grids (bases, variables, couplings, inactive boxes), manufactured elliptic problems, small systems with and without roots; step rules, linear solvers, tolerances, injected linear failures; distinct by these")
