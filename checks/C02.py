#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
def go(c):
    b = c.build("asan", "core")
    exe = b.link("c02", ["c02.c"])
    c.pmap(lambda i: c.harness(exe, [i], timeout=600), range(8))
    c.finish(min_cases=500)
main(go, "C02", rule="random histories of declarations, duplications, list edits and list arithmetic on grids of 1-5 boxes, plus every tensor pattern; "
     "non-trivial: more than ten variables")
