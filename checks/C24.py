#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
def go(c):
    a = c.build("asan", "adm").link("c24", ["c24.c"]); b = c.build("O1", "adm").link("c24", ["c24.c"])
    n, w = (150, 150) if c.thorough else (24, 24)
    jobs = [(a, [str(i)]) for i in range(8)]+[(b, [str(8+i)]) for i in range(n)]
    # one evolved wave per process: the evolution code keeps its lists from the first run
    jobs += [(a if i < 4 else b, [str(i), "w"]) for i in range(w)]
    def run(j):
        d = tempfile.mkdtemp(prefix="c24-", dir=c.work); c.harness(j[0], j[1], timeout=800, cwd=d)
    c.pmap(run, jobs); c.finish(min_cases=300)
main(go, "C24", rule="random metrics, curvatures, gauges, exact space times, black holes, waves, equation settings and grids; distinct by these")
