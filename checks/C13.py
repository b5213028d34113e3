#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
def go(c):
    b = c.build("asan", "core")
    exe = b.link("spec", ["spec.c"])
    c.pmap(lambda i: c.harness(exe, [13, i], timeout=800), range(8))
    c.finish(min_cases=200)
main(go, "C13", rule="random boxes (bases, sizes, intervals, transform types) with random representable functions; distinct by box description")
