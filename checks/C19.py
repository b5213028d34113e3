#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
def go(c):
    a = c.build("asan", "core").link("c19", ["c19.c"]); b = c.build("O1", "core").link("c19", ["c19.c"])
    n = 120 if c.thorough else 12
    jobs = [(a, i) for i in range(12)]+[(b, 12+i) for i in range(n)]
    def run(j):
        d = tempfile.mkdtemp(prefix="c19-", dir=c.work); c.harness(j[0], [str(j[1])], timeout=800, cwd=d)
    c.pmap(run, jobs); c.finish(min_cases=300)
main(go, "C19", rule="random linear problems (boxes, variables, couplings, inactive boxes), solvers, settings, start vectors and tolerances; distinct by these")
