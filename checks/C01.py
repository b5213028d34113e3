#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
def go(c):
    b = c.build("asan", "core")
    exe = b.link("c01", ["c01.c"])
    c.pmap(lambda i: c.harness(exe, [i], timeout=600), range(8))
    c.finish(min_cases=1000)
main(go, "C01", rule="random histories of declare/set/append/copy/parse/query operations and random command lines; "
     "a case is non-trivial if it leaves at least two parameters or applies an override")
