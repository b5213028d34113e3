#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
def go(c):
    b = c.build("asan", "core")
    exe = b.link("c03", ["c03.c"])
    c.pmap(lambda i: c.harness(exe, [i], timeout=600), range(8))
    c.finish(min_cases=500)
main(go, "C03", rule="random histories of storage, copy, activation, list, point list and face operations on up to three grids of 1-5 boxes, "
     "plus copies of complete real grids; non-trivial: more than one box")
