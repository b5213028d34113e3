#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
def go(c):
    b = c.build("asan", "core")
    exe = b.link("c16", ["c16.c"])
    order = [17, 16, 15, 14, 18, 19] + list(range(14))
    c.pmap(lambda i: c.harness(exe, [str(i)], timeout=800), order)
    c.finish(min_cases=150)
main(go, "C16", rule="random coordinate type, parameters, box bounds, point counts, deformations and points; distinct by these")
