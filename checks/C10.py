#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
def go(c):
    b = c.build("asan", "core")
    exe = b.link("c10", ["c10.c"])
    c.pmap(lambda i: c.harness(exe, [i], timeout=600), range(8))
    c.finish(min_cases=1000)
main(go, "C10", rule="random arrays of 1, 2, 4 and 8 byte numbers with special bit patterns, short files, pipes, full devices; distinct by function, size, count and first pattern",
     )
