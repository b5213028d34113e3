#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
def go(c):
    a = c.build("asan", "main").link("c27", ["c27.c"]); b = c.build("O1", "main").link("c27", ["c27.c"])
    n = 200 if c.thorough else 40
    jobs = [(a, [str(i)]) for i in range(16)]+[(b, [str(16+i)]) for i in range(n)]
    def run(j):
        d = tempfile.mkdtemp(prefix="c27-", dir=c.work); c.harness(j[0], j[1], timeout=800, cwd=d)
    c.pmap(run, jobs); c.finish(min_cases=300)
main(go, "C27", rule="random black holes, fields, time steps, shells, wave packets, elliptic set-ups and unknowns; distinct by these")
