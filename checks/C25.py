#!/usr/bin/env python3
# C25: real runs into which non-finite (and merely large, tiny) values are planted; messages, end of run and undisturbed runs are compared with an independent bit test
import sys, os, random, re, hashlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import pgrid
VARS = ["probe_u", "probe_vx", "probe_vy", "probe_vz", "probe_hxx", "probe_hxy", "probe_hzz", "probe_guard", "probe_acc"]
BAD = ["nan", "Nan", "snan", "Snan", "inf", "Inf"]; FINE = ["max", "Max", "denorm", "zero-", "1e299", "-1e299"]; LARGE = ["1.1e300", "-3e305"]
START = re.compile(r"NAN/INF: (\S+)=(\S+) at ijk=(\d+): (x=\S+ y=\S+ z=\S+) box(\d+) grid=\S+ (X=\S+ Y=\S+ Z=\S+)")
TIL = re.compile(r"NAN/INF: (\S+)=(\S+) til +(\d+): .*? box(\d+) ")
def read(log):
    r = dict(D=[], V=[], C={}, E=0, X=[], Y=[], S=[], F=[], N=0, R=None)
    for l in open(log, errors="replace") if os.path.exists(log) else []:
        k, _, v = l.rstrip("\n").partition(" ")
        if k in ("D", "V", "X", "Y", "F"): r[k].append(v)
        elif k == "C": n, x = v.split(); r["C"][n] = r["C"].get(n, 0)+int(x)
        elif k == "E": r["E"] += 1
        elif k == "N": r["N"] += 1
        elif k == "S": r["S"].append(int(v))
        elif k == "R": r["R"] = int(v)
    return r
def tree(d):
    h = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            if f.startswith(("stdout", "parset")) or f.endswith(".par"): continue
            h[os.path.relpath(os.path.join(root, f), d)] = hashlib.sha1(open(os.path.join(root, f), "rb").read()).hexdigest()
    return h
def one(c, exe, k):
    rnd = random.Random("%d-C25-%d" % (c.seed, k)); d = tempfile.mkdtemp(prefix="c25-", dir=c.work)
    n = rnd.randint(1, 5); use = rnd.choice(["A", "B", "B", "AB"]); mode = rnd.choice(["bad", "bad", "bad", "fine", "fine", "ham"]); 
    wa = rnd.choice(VARS+["gxx", "alpha", "betay", "Kxy"]) if "A" in use else "no"; wb = rnd.choice(VARS+["x", "Y"]*0+["probe_u"]) if "B" in use else "no"
    L = ["dt = %.17g" % rnd.choice([.1, .01, .37]), "Coordinates_set_bfaces = no", "probe_seed = %d" % rnd.randint(1, 10**6), "probe_nl = %g" % rnd.choice([0, 1]), "probe_subset = all", "probe_bc = %d" % rnd.choice([0, 1]),
         "evolution_method = %s" % rnd.choice(["rk", "icn", "euler"]), "evolution_method_rk = %s" % rnd.choice(["rk4", "rk1", "rk3b"])]
    if rnd.random() < .5: L.append("iterations = %d" % n)
    else: L.append("finaltime = %.17g" % (n*float(L[0].split()[-1])))
    g = pgrid.grid(rnd, coords=mode != "ham" and rnd.random() < .3); L += g; nb = int([x for x in g if x.startswith("nboxes")][0].split()[-1])
    lim = rnd.choice(["", "", "1e300", "1e5", "1e307"]); 
    if lim: L.append("NumberChecker_INF = "+lim)
    it = rnd.randint(0, n); groups = []; part = None
    if rnd.random() < .2 and nb > 1: # a variable that has storage in some boxes only
        part = [rnd.random() < .5 for _ in range(nb)]; part[rnd.randrange(1, nb)] = True; L.append("probe_part = "+"".join("01"[x] for x in part))
        if wa != "no" and rnd.random() < .5: wa = "probe_part_of_boxes"
        elif wb != "no": wb = "probe_part_of_boxes"
        else: wa = "probe_part_of_boxes"
        c.count("runs with a watched variable in some boxes only")
    watched = [x for x in (wa, wb) if x != "no"]
    def group(var, kinds, contiguous):
        b = rnd.choice([i for i in range(nb) if part[i]]) if var == "probe_part_of_boxes" else rnd.randrange(nb); p = rnd.choice([0, -1, rnd.randrange(2000), rnd.randrange(2000)])
        for q in range(contiguous): groups.append("%d %s %d %d %s" % (it, var, b, p+q if p >= 0 else p-q, rnd.choice(kinds)))
    if mode == "bad":
        for _ in range(rnd.choice([1, 1, 2, 4])): group(rnd.choice(watched), BAD+(LARGE if rnd.random() < .3 else []), rnd.choice([1, 1, 2, 5]))
        if rnd.random() < .3 and nb > 1: # last point of one box, first of the next
            b = rnd.randrange(nb-1); v = rnd.choice(watched); groups += ["%d %s %d -1 nan" % (it, v, b), "%d %s %d 0 inf" % (it, v, b+1)]
    elif mode == "fine":
        if rnd.random() < .6 and it == n and lim in ("", "1e300", "1e307"): group(rnd.choice(watched), FINE[:2] if wb == "no" else FINE[4:], rnd.choice([1, 3]))
        if rnd.random() < .5: group(rnd.choice(watched), FINE[2:4], 2)
        if rnd.random() < .5: 
            o = [v for v in ["probe_guard", "probe_acc"] if v not in watched]   # not coupled to the watched ones
            if o: group(rnd.choice(o), BAD, 2)
    else:
        # an infinite constraint, watched by ADMvars_NANcheck
        wa = "no" if rnd.random() < .5 else wa; v = rnd.choice(["Kxx", "Kyz", "gxx", "gzz", "rho"]); b = rnd.randrange(nb)
        groups.append("%d %s %d %d nan" % (it, v, b, rnd.randrange(500))); L += ["ADMvars_NANcheck = yes", "1doutput = ham", "1doutiter = 1"]
        if v == wa: mode = "bad"
    if rnd.random() < .5 and mode != "ham": L += ["2doutput = probe_u probe_vx", "2doutiter = 1", "1doutput = probe_acc", "1doutiter = 2"]
    phys = "physics = ADMvars %s" % ("NumberChecker" if "B" in use else "none"); vl = ["probe_vlcheck = 1"] if rnd.random() < .3 else []
    if lim == "1e5" and mode == "fine": L = [x for x in L if not x.startswith("NumberChecker_INF")]
    watch = [phys, "ADMvars_exitifNAN = %s" % wa, "NumberChecker_exitifNAN = %s" % wb]+vl
    open(d+"/p.par", "w").write("\n".join(watch+L+(["probe_nan = "+" ".join(groups)] if groups else []))+"\n")
    r = c.run([exe, d+"/log", "p.par"], d, timeout=200); desc = "case %d: %s" % (k, "; ".join(watch+L+groups)); q = read(d+"/log")
    for x in r.san: c.fail(x, desc+"\n"+r.err[-3000:])
    for v in q["V"]: c.fail(v.partition(" | ")[0], v+"  in "+desc)
    for a, b in q["C"].items(): c.count(a, b)
    out = re.sub(r"BEGINVL.*?ENDVL", "", r.out, flags=re.S)
    hamexit = "CheckIfFinite: NAN/INF error: ham is not finite" in r.out+r.err
    firstbad = min([int(x.split()[1]) for x in q["Y"]], default=None)
    if mode == "ham" and firstbad is None:
        planted = q["N"] > 0 
        if planted:
            c.count("runs with a bad constraint")
            if r.rc == 0 or not hamexit: c.fail("bad constraint not noticed", "rc %s %s" % (r.rc, desc))
            elif len(q["S"]) != (it if it == 0 else it+1): c.fail("bad constraint noticed late", "%d steps, bad at %d: %s" % (len(q["S"]), it, desc))
            if "NAN/INF: ham=" not in r.out: c.fail("bad constraint without location", desc)
        elif r.rc != 0: c.fail("finite run ended early", "rc %s %s %s" % (r.rc, desc, r.out[-500:]))
        shutil.rmtree(d, ignore_errors=True); c.case(desc, planted); return
    if hamexit and not any(x.startswith("ADMvars_NANcheck") for x in L): c.fail("finite run ended early", "NANcheck: "+desc)
    if hamexit: shutil.rmtree(d, ignore_errors=True); c.case(desc, True); return
    if r.rc != 0 or q["E"] != 1 or q["R"] != 0:
        if not r.san: c.fail("hang" if r.timeout else "run ended early", "rc=%s ends=%d %s\n%s" % (r.rc, q["E"], desc, r.out[-600:]+r.err[-600:]))
        return
    # messages: each run of bad points with variable, place and box, in both checkers
    exp = []; 
    for x in q["X"]:
        a, xs, Xs = x.split(" | "); tag, i, nm, b, f, l = a.split(); exp.append((nm, int(f), xs, int(b), Xs)); c.count("bad runs of points (%s)" % tag)
    got = [(m[1], int(m[3]), m[4], int(m[5]), m[6]) for m in START.finditer(out)]
    if sorted(got) != sorted(exp):
        miss = [x for x in exp if x not in got]; extra = [x for x in got if x not in exp]
        c.fail("bad point not reported" if miss else "report of a good point", "missing %s extra %s: %s" % (miss[:3], extra[:3], desc))
    te = sorted((x.split()[2], int(x.split()[5]), int(x.split()[3])) for x in q["X"] if int(x.split()[5]) > int(x.split()[4])); tg = sorted((m[1], int(m[3]), int(m[4])) for m in TIL.finditer(out))
    if te != tg: c.fail("end of bad points", "%s instead of %s: %s" % (tg[:4], te[:4], desc))
    cg = sorted(int(m[1]) for m in re.finditer(r"^(\d+) NAN/INFs were detected", out, re.M)); ce = sorted(int(x.split()[2]) for x in q["Y"])
    if cg != ce: c.fail("number of bad points", "%s instead of %s: %s" % (cg, ce, desc))
    ng = sorted(m[1] for m in re.finditer(r"^\S+: (\S+) is not finite after evolve", out, re.M)); ne = sorted(wa if x.split()[0] == "A" else wb for x in q["Y"])
    if ng != ne: c.fail("message names the variable", "%s instead of %s: %s" % (ng, ne, desc))
    if firstbad is not None:
        c.count("stopped runs"); c.count("stopped at start" if firstbad == 0 else "stopped later")
        if len(q["S"]) != (firstbad if firstbad == 0 else firstbad+1): c.fail("run not stopped", "bad after step %d, %d steps: %s" % (firstbad, len(q["S"]), desc))
    else:
        c.count("undisturbed runs")
        if len(q["S"]) != n: c.fail("finite run ended early", "%d of %d steps: %s" % (len(q["S"]), n, desc))
        # the same run without the watching
        e = tempfile.mkdtemp(prefix="c25-", dir=c.work)
        open(e+"/p.par", "w").write("\n".join(["physics = ADMvars none", "ADMvars_exitifNAN = no"]+L+(["probe_nan = "+" ".join(groups)] if groups else []))+"\n")
        r2 = c.run([exe, e+"/log", "p.par"], e, timeout=200); q2 = read(e+"/log")
        if (q["D"], q["F"]) != (q2["D"], q2["F"]): c.fail("watching changes the run", desc)
        if tree(d+"/p") != tree(e+"/p"): c.fail("watching changes the output", desc)
        c.count("files compared", len(tree(e+"/p"))); shutil.rmtree(e, ignore_errors=True)
    c.case(desc, firstbad is not None or q["N"] > 0); shutil.rmtree(d, ignore_errors=True)
def go(c):
    b = c.build("asan", "adm"); exe = b.link("c25", ["c25.c"])
    c.pmap(lambda k: one(c, exe, k), range(12000 if c.thorough else 1400))
    for m in ("stopped at start", "stopped later", "undisturbed runs", "runs with a bad constraint", "lists-counted"):
        if not c.counters.get(m): raise HarnessError("nothing of kind "+m)
    c.finish(min_cases=80)
main(go, "C25", rule="random grids, watched variables, kinds of values (all NaN signs and payloads, infinities, largest, denormal, limits), boxes, points (first, last, runs of points, box to box) and steps; non-trivial: a value was planted")
