#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
def go(c):
    b = c.build("asan", "adm")
    exe = b.link("c15", ["c15.c"])
    nm = 200 if c.thorough else 32
    def mode(i):
        d = os.path.join(c.work, "mode%d" % i); os.makedirs(d)
        r = c.run([exe, "data", d, str(i)], d, timeout=100)
        r = c.run([exe, "run", "p.par"], d, timeout=200)
        exp = [l.split() for l in open(d+"/expect")]
        L, s, n2, n3, gt, nt = exp[0][1:]
        what = "ModeComputer lmax=%s s=%s n2=%s n3=%s %s" % (L, s, n2, n3, gt)
        if r.rc != 0: c.fail("modes-run", "%s: rc=%s %s" % (what, r.rc, r.err[-1500:])); return
        want = dict(((l, m), []) for l in range(int(L)+1) for m in range(-l, l+1))   # no rows if no time is in both files
        for e in exp[1:]: want[(int(e[1]), int(e[2]))].append([float(x) for x in e[3:]])
        for (l, m), rows in want.items():
            fn = d+"/p/md_l%dm%d_s%s.t" % (l, m, s)
            try: got = [[float(x) for x in l.split()] for l in open(fn) if not l.startswith("#")]
            except Exception as ex: c.fail("modes-file", "%s: %s" % (what, ex)); return
            if len(got) != len(rows): c.fail("modes-times", "%s l=%d m=%d: %d rows expected %d" % (what, l, m, len(got), len(rows))); return
            for g, w in zip(got, rows):
                if len(g) != 3 or g[0] != w[0] or not abs(g[1]-w[1]) < 1e-8 or not abs(g[2]-w[2]) < 1e-8:
                    c.fail("modes-value", "%s l=%d m=%d: %s expected %s" % (what, l, m, g, w)); return
            c.count("modes extracted", len(rows))
        c.case(what+"%d" % i, True)
    jobs = [("h", i) for i in range(8)] + [("m", i) for i in range(nm)]
    c.pmap(lambda j: c.harness(exe, [j[1]], timeout=800) if j[0] == "h" else mode(j[1]), jobs)
    c.finish(min_cases=1000)
main(go, "C15", rule="random degrees, orders, spin weights, angles (incl. poles), table sizes, expansions and data sets; distinct by these")
