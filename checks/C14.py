#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
def go(c):
    b = c.build("asan", "core")
    b2 = c.build("asan", "main")
    exe = b.link("spec", ["spec.c"]); exe2 = b2.link("c14", ["c14.c"])
    jobs = [(exe, [14, i]) for i in range(8)] + [(exe2, [i]) for i in range(8)]
    c.pmap(lambda j: c.harness(j[0], j[1], timeout=800), jobs)
    c.finish(min_cases=500)
main(go, "C14", rule="random grids (1-3 boxes, random bases, sizes, filter settings) and random data or single harmonics on them; distinct by filter, grid sizes, bases and settings")
