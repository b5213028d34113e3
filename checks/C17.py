#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
def go(c):
    b = c.build("asan", "core")
    exe = b.link("c17", ["c17.c"])
    c.pmap(lambda i: c.harness(exe, [str(i)], timeout=800), [3, 4, 2, 10, 0, 1, 8, 9, 5, 6, 7, 11])
    c.finish(min_cases=130)
main(go, "C17", rule="random arrangement, sizes, point counts, options and data; distinct by these")
