#!/usr/bin/env python3
# C04: offline checker of the event log of probes registered in the time bins of real runs
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
BINS = "POST_PARAMETERS PRE_GRID POST_GRID PRE_COORDINATES COORDINATES PRE_INITIALDATA INITIALDATA POST_INITIALDATA PRE_EVOLVE EVOLVE PRE_POST_EVOLVE POST_EVOLVE ANALYZE OUTPUT POST_OUTPUT PRE_FINALIZE_GRID POST_FINALIZE_GRID LAST".split()
B = {n: i for i, n in enumerate(BINS)}
INIT = "PRE_COORDINATES COORDINATES PRE_INITIALDATA INITIALDATA POST_INITIALDATA PRE_POST_EVOLVE POST_EVOLVE ANALYZE OUTPUT POST_OUTPUT".split()
def gen(rnd, quick):
    """one program: list of runs (argument lines), registrations, what is expected"""
    s = {"funs": [], "adds": [], "sets": [], "pars": []}
    n = rnd.choice([3, 8, 25, 60])
    ids = list(range(64)); rnd.shuffle(ids)
    dup = rnd.random() < .3
    for k in range(n):
        i = rnd.choice(ids[:8]) if dup else ids[k]
        s["funs"].append((rnd.randrange(len(BINS)) if rnd.random() < .8 else rnd.choice([B["OUTPUT"], B["EVOLVE"], B["ANALYZE"]]), i))
    used = {i for _, i in s["funs"]}
    if rnd.random() < .4:
        for _ in range(rnd.randint(1, 4)):
            s["adds"].append((rnd.choice(sorted(used)), rnd.randrange(len(BINS)), rnd.randrange(64)))
    nruns = rnd.choice([1, 1, 1, 2, 3, 5]); s["runs"] = []
    names = set()
    for r in range(nruns):
        while 1:
            nm = rnd.choice(["a", "run", "b.x", "my.parts/x", "d/e/long-name_%d" % rnd.randint(0, 99), "out.par.1", "ab/q%d" % rnd.randint(0, 999), "w"])
            if nm not in names and not any(x.startswith(nm+"/") or nm.startswith(x+"/") for x in names): break
        names.add(nm)
        p = {"name": nm, "ext": rnd.random() < .7, "abs": rnd.random() < .15, "pars": {}, "tables": [], "opts": []}
        q = p["pars"]
        q["nboxes"] = rnd.choice([1, 1, 2, 3])
        for b in range(q["nboxes"]):
            for d in (1, 2, 3): q["box%d_n%d" % (b, d)] = rnd.randint(3, 4)
            q["box%d_min1" % b], q["box%d_max1" % b] = b, b+1
        q["physics"] = "none"
        q["dt"] = rnd.choice(["0.125", "0.1", "0.3", "1e-3"])
        if rnd.random() < .5: q["finaltime"] = repr(float(q["dt"])*rnd.choice([0, 1, 2.5, 3, 4.4, 4.6, 7]))
        else: q["iterations"] = rnd.choice([0, 1, 2, 5])
        q["probe_p"] = "p%d" % r; q["probe_q"] = rnd.choice(["1", "x y", "", "long"*20])
        if rnd.random() < .35:
            nt, nv = rnd.choice([1, 1, 2, 3]), rnd.choice([1, 2, 4])
            q["iterate_parameters"] = "yes"
            for t, par in enumerate(rnd.sample(["box0_n1", "probe_p", "dt", "iterations", "probe_q"], nt)):
                def val():
                    return {"box0_n1": str(rnd.randint(3, 6)), "dt": rnd.choice(["0.25", "0.5", "0.1", "0.05"]), "iterations": str(rnd.randint(0, 3))}.get(par, rnd.choice(["v", "value", "x1", "yes", "3.5"])+str(rnd.randint(0, 30)))
                p["tables"].append((par, [val() for _ in range(nv)]))
        if rnd.random() < .25: p["opts"].append(("probe_q", "fromcmd%d" % rnd.randint(0, 99)))
        if rnd.random() < .1: p["opts"].append(("iterations", str(rnd.randint(0, 4))))
        if rnd.random() < .15:
            for _ in range(rnd.randint(1, 6)): p["opts"].append((rnd.choice(["probe_q", "probe_p", "newpar"]), rnd.choice(["1", "v%d" % rnd.randint(0, 99), "a=b", "x#y", "-3e-5", "yes", "z"*30])))
        p["cmd"] = ["--modify-par:%s=%s" % o for o in p["opts"]]
        if rnd.random() < .15: p["cmd"].insert(rnd.randint(0, len(p["cmd"])), rnd.choice(["--keep_previous", "--something", "--other=1"]))
        if rnd.random() < .25:
            for i in range(rnd.randint(1, 3)): p["cmd"].insert(rnd.randint(0, len(p["cmd"])), rnd.choice(["arg", "x#", "a=1", "long"*10])+str(rnd.randint(0, 9)))
        s["runs"].append(p)
    s["argsfile"] = nruns > 1 or rnd.random() < .15
    if rnd.random() < .25:
        s["sets"].append((rnd.choice(sorted(used)), rnd.randint(0, 2), "iterations", str(rnd.randint(0, 6))))
    s["pars"] = ["probe_p", "probe_q", "dt", "iterations", "box0_n1", "nboxes", "newpar", "sgrid_arg2", "sgrid_arg3", "sgrid_arg4", "sgrid_options", "parameterfile"]
    if not s["argsfile"] and rnd.random() < .5:
        p = s["runs"][0]; p["opts"].append(("probe_q", "two words")); p["cmd"].append("--modify-par:probe_q=two words")
    return s
def expected(s, top):
    """events and directory marks the documented program order implies"""
    bins = {i: [] for i in range(len(BINS))}
    for b, i in s["funs"]: bins[b].append(i)
    todo = [list(a) for a in s["adds"]]
    ev, marks = [], {}
    cur = {}
    restarts = [0]
    def fire(name, g):
        k = 0; L = bins[B[name]]
        while k < len(L):
            i = L[k]
            ev.append((i, g and (g["it"], (g["it"]*g["dt"]), g["nb"], g["n1"]), cur.get("outdir", "?") , tuple(cur["pars"].get(p, "?") for p in s["pars"]) if cur.get("pars") is not None else tuple("?" for p in s["pars"])))
            if g:
                for (j, it, par, val) in s["sets"]:
                    if j == i and it == g["it"]: cur["pars"][par] = val
            if "outdir" in cur: marks.setdefault(cur["outdir"], []).append(i)
            for a in todo:
                if a[0] == i and a[1] is not None:
                    b = a[1]; a[1] = None
                    if restarts[0] == 0: bins[b].append(a[2])
            k += 1
    DEF = {"dt": "0.125", "iterations": "0", "finaltime": "0"}
    for p in s["runs"]:
        base = os.path.join(top, p["name"]) if p["abs"] else p["name"]
        cur = {"outdir": base, "pars": dict(DEF)}
        cur["pars"].update({k: str(v) for k, v in p["pars"].items()})
        for k, v in p["opts"]: cur["pars"][k] = v
        ar = [x for x in p["cmd"] if x[0] != "-"]; op = [x for x in p["cmd"] if x[0] == "-"]
        for i, x in enumerate(ar): cur["pars"]["sgrid_arg%d" % (i+2)] = x
        if op: cur["pars"]["sgrid_options"] = " ".join(op)
        cur["pars"]["parameterfile"] = base+".par"
        marks.setdefault(base, [])
        niter = len(p["tables"][0][1]) if p["tables"] else 1
        for n in range(niter):
            if p["tables"]:
                for par, vals in p["tables"]: cur["pars"][par] = vals[n]
                cur["outdir"] = base+"".join("_"+vals[n] for _, vals in p["tables"])
                if cur["outdir"] in marks: marks[cur["outdir"]+"_previous"] = marks[cur["outdir"]]
                marks[cur["outdir"]] = []
            P = cur["pars"]
            fire("POST_PARAMETERS", None); fire("PRE_GRID", None)
            P = cur["pars"]
            g = {"it": 0, "dt": float(P["dt"]), "nb": int(P["nboxes"]), "n1": int(P["box0_n1"])}
            fire("POST_GRID", g)
            for b in INIT: fire(b, g)
            def imax():
                ft = float(P["finaltime"])
                return int(ft/g["dt"]+0.5) if ft > 0 else int(P["iterations"])
            m = imax()
            if m > 0:
                while g["it"] < m:
                    for b in ("PRE_EVOLVE", "EVOLVE", "PRE_POST_EVOLVE", "POST_EVOLVE"): fire(b, g)
                    g["it"] += 1
                    for b in ("ANALYZE", "OUTPUT", "POST_OUTPUT"): fire(b, g)
                    m = imax()
            fire("PRE_FINALIZE_GRID", g); fire("POST_FINALIZE_GRID", None)
        restarts[0] += 1
        cur = {"pars": None}
    fire("LAST", None)
    return ev, marks
def one(c, exe, k):
    rnd = random.Random("%d-C04-%d" % (c.seed, k))
    top = tempfile.mkdtemp(prefix="c04-", dir=c.work)
    s = gen(rnd, not c.thorough)
    lines = ["fun %d %d" % f for f in s["funs"]]+["add %d %d %d" % a for a in s["adds"]]+["set %d %d %s %s" % a for a in s["sets"]]+["par "+p for p in s["pars"]]
    open(top+"/spec", "w").write("\n".join(lines)+"\n")
    argl = []
    for p in s["runs"]:
        f = os.path.join(top, p["name"]+".par"); os.makedirs(os.path.dirname(f), exist_ok=True)
        items = list(p["pars"].items())
        for i, (par, vals) in enumerate(p["tables"]): items.append(("iterate_parameter%d" % (i+1), par+" "+" ".join(vals)))
        rnd.shuffle(items)
        open(f, "w").write("# generated\n"+"\n".join("%s = %s" % it for it in items)+"\n")
        a = [(top+"/" if p["abs"] else "")+p["name"]+(".par" if p["ext"] or ".par" in p["name"] else "")]
        argl.append(a+p["cmd"])
    if s["argsfile"]:
        out = []
        for a in argl:
            if rnd.random() < .3: out.append("# comment %s" % a[0])
            if rnd.random() < .3: out.append("")
            out.append(" ".join(a))
        open(top+"/args.txt", "w").write("\n".join(out)+("\n" if rnd.random() < .8 else ""))
        args = ["--argsfile", "args.txt"]
    else: args = argl[0]
    if c.stop(): return
    r = c.run([exe, "spec", "log.txt"]+args, top, timeout=60)
    desc = "runs=%d argsfile=%d funs=%d adds=%d sets=%d tables=%s args=%s" % (len(s["runs"]), s["argsfile"], len(s["funs"]), len(s["adds"]), len(s["sets"]), [len(p["tables"]) for p in s["runs"]], args)
    for x in r.san: c.fail(x, desc+"\n"+r.err[-4000:])
    if r.timeout or r.rc != 0:
        if not r.san: c.fail("run ended abnormally", "rc=%s timeout=%s %s\n%s\n%s" % (r.rc, r.timeout, desc, r.out[-1500:], r.err[-1500:]))
        shutil.rmtree(top, ignore_errors=True); return
    got = []
    for l in open(top+"/log.txt", errors="replace"):
        if not l.startswith("E "): continue
        head, _, rest = l.rstrip("\n").partition(" |")
        h = head.split(); f = rest.split("|")
        g = None if h[2] == "0" else (int(h[3]), float.fromhex(h[4]), int(h[5]), int(h[6]))
        got.append((int(h[1]), g, f[0], tuple(f[1:-1])))
    ev, marks = expected(s, top)
    if [e[0] for e in got] != [e[0] for e in ev]:
        n = next((i for i, (a, b) in enumerate(zip(got, ev)) if a[0] != b[0]), min(len(got), len(ev)))
        c.fail("order or number of calls", "%s: call %d: got %s, expected %s (of %d, %d)" % (desc, n, got[n:n+3], ev[n:n+3], len(got), len(ev)))
    else:
        for n, (a, b) in enumerate(zip(got, ev)):
            if a[1] != b[1]: c.fail("grid, iteration or time seen by a function", "%s: call %d: got %s expected %s" % (desc, n, a, b)); break
            if a[2] != b[2]: c.fail("output directory of a cycle", "%s: call %d: got %s expected %s" % (desc, n, a[2], b[2])); break
            if a[3] != b[3]: c.fail("parameter values of a cycle", "%s: call %d: got %s expected %s" % (desc, n, a[3], b[3])); break
    for d, m in marks.items():
        dd = os.path.join(top, d)
        if not os.path.isdir(dd): c.fail("output directory missing", "%s: %s" % (desc, d)); continue
        f = dd+"/probe_marks"
        have_m = [int(x) for x in open(f)] if os.path.exists(f) else []
        if have_m != m: c.fail("output written into the wrong directory", "%s: %s has %d marks, expected %d" % (desc, d, len(have_m), len(m)))
    for p in s["runs"]:
        dirs = {os.path.normpath(os.path.join(top, d)) for d in marks}
    for root, ds, fs in os.walk(top):
        if "probe_marks" in fs and os.path.normpath(root) not in dirs: c.fail("unexpected output directory", "%s: %s" % (desc, root))
    c.count("calls checked", len(got)); c.count("parameter cycles", sum(len(p["tables"][0][1]) if p["tables"] else 1 for p in s["runs"]))
    c.case("%d %s" % (k, desc), len(got) > 5)
    shutil.rmtree(top, ignore_errors=True)
def go(c):
    exe = c.build("asan", "core").link("c04", ["c04.c"])
    c.pmap(lambda k: one(c, exe, k), range(3000 if c.thorough else 240))
    c.finish(min_cases=100)
main(go, "C04", rule="random registrations (also repeated and made while running), parameter tables, argument files and parameter file locations; non-trivial: more than five calls observed")
