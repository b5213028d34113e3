#!/usr/bin/env python3
# C08: real resumes from damaged and mismatched checkpoints under sanitizers
import sys, os, random, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import pgrid
def final(log):
    r = {}; T = None; E = 0; D = []
    try:
        for l in open(log, errors="replace"):
            k, _, v = l.rstrip("\n").partition(" ")
            if k == "F": n, b, h = v.split(); r[n+":"+b] = h
            elif k == "T": T = v
            elif k == "E": E += 1
            elif k == "D": D.append(v)
    except OSError: pass
    return r, T, E, D
class Ck:
    """independent parser: byte ranges of all parts of a checkpoint"""
    def __init__(s, data):
        s.d = data; i = data.index(b"\n"); s.header = (0, i)
        s.endheader = (data.index(b"$END_checkpoint_header"), 0); s.endheader = (s.endheader[0], s.endheader[0]+22)
        a = data.index(b"$BEGIN_parameter_database:"); e = data.index(b"\n", a); s.parline = (a, e)
        b = data.index(b"\n$END_parameter_database\n")+1; s.endpar = (b, b+23); s.pars = []
        p = e+1
        while p < b: q = data.index(b"\n", p); s.pars.append((p, q)); p = q+1
        v = data.index(b"$BEGIN_variables:\n", b); s.beginvar = (v, v+17); p = v+18; s.vars = []
        while True:
            q = data.index(b"\n", p); l = data[p:q]
            if l == b"$END_variables": s.endvar = (p, q); break
            m = re.match(rb"^\$variable = (\S+) : box = (\d+) , box->nnodes = (\d+)$", l); n = int(m.group(3))
            s.vars.append(dict(name=m.group(1).decode(), box=int(m.group(2)), n=n, line=(p, q), data=(q+1, q+1+8*n), span=m)); p = q+1+8*n+1
            assert data[p-1:p] == b"\n"
class Conf: pass
def mutate(rnd, ck, evolved, nb):
    """(description, bytes, expectation): refuse | same | any"""
    d = ck.d; t = rnd.choice(["trunc"]*5+["trunctext", "truncedge", "marker", "marker", "header", "hnum", "parcount", "parline", "delpar", "vline", "vline", "box", "nnodes", "nnodes", "delvar", "renamevar", "cut", "cut", "insert",
                              "dropnl", "extra", "reorder", "flip", "flip", "flip", "garbage", "empty", "longline", "longline", "unknownpar", "binary", "wrongsection", "zero"])
    rep = lambda a, b, new: d[:a]+new+d[b:]
    V = rnd.choice(ck.vars)
    E = rnd.choice([v for v in ck.vars if v["name"] in evolved])
    if t == "trunc": k = rnd.randint(0, len(d)-3); return "truncated at %d of %d" % (k, len(d)), d[:k], "refuse"
    if t == "trunctext": k = rnd.randint(0, ck.beginvar[1]); return "truncated at %d of %d" % (k, len(d)), d[:k], "refuse"
    if t == "truncedge":
        k = rnd.choice([ck.header[1], ck.endheader[0], ck.endheader[1]-1, ck.parline[1], ck.endpar[0], ck.endpar[1]-1, ck.beginvar[0], ck.beginvar[1], V["line"][0], V["line"][1], V["data"][0], V["data"][1]-1, V["data"][1], ck.endvar[0], ck.endvar[1]-1])
        return "truncated at edge %d of %d" % (k, len(d)), d[:k], "refuse"
    if t == "marker":
        a, b = rnd.choice([(ck.header[0], 25), ck.endheader, (ck.parline[0], ck.parline[0]+26), ck.endpar, ck.beginvar, ck.endvar]); s = bytearray(d[a:b]); w = rnd.choice(["change", "delete", "del1", "whole"])
        if w == "change": i = rnd.randrange(len(s)); s[i] = (s[i]+rnd.randint(1, 200)) % 256
        elif w == "delete": s = b""
        elif w == "del1": i = rnd.randrange(len(s)); del s[i]
        else: s = b"$SOMETHING_else"
        if bytes(s).strip(b" \n") == d[a:b]: return None
        return "marker %r -> %r" % (d[a:b], bytes(s)), rep(a, b, bytes(s)), "refuse"
    if t == "header":
        l = d[slice(*ck.header)]; w = rnd.choice([b"$bmin", b"$bmax", b"$time", b"$iteration", b"=", b","]); i = [m.start() for m in re.finditer(re.escape(w), l)]; i = rnd.choice(i)
        n = l[:i]+b"?"*len(w)+l[i+len(w):]; return "header %r" % n, rep(0, ck.header[1], n), "refuse"
    if t == "hnum":
        l = d[slice(*ck.header)]; w = rnd.choice(["bmax", "bmax", "bmin", "time", "iteration"])
        new = {"bmax": str(rnd.choice([nb, nb+3, -1, -7, 2**31-1, nb-2 if nb > 1 else 9])), "bmin": rnd.choice(["1", "-1", "7"]), "time": "x", "iteration": rnd.choice(["", "z", "--"])}[w]
        n = re.sub(rb"(\$%s = )([^ ]+)" % w.encode(), lambda m: m.group(1)+new.encode(), l)
        return "header %r" % n, rep(0, ck.header[1], n), "refuse"
    if t == "parcount":
        l = d[slice(*ck.parline)]; n = int(l.split(b"=")[1]); new = rnd.choice([b"%d" % (n+rnd.randint(1, 5)), b"x", b"", b"%d 5" % n]); m = l.split(b"=")[0]+b"= "+new
        return "parameter line %r" % m, rep(ck.parline[0], ck.parline[1], m), "refuse"
    if t == "parline": a, b = rnd.choice(ck.pars); l = d[a:b].replace(b"=", b" "); return "parameter %r" % l, rep(a, b, l), "refuse"
    if t == "delpar": a, b = rnd.choice(ck.pars); return "deleted parameter %r" % d[a:b], rep(a, b+1, b""), "refuse"
    if t == "vline":
        a, b = V["line"]; s = d[a:b]; w = rnd.choice([b"$variable", b"=", b":", b"box", b"nnodes", b",", b"->", b"$", b"variable ="]); n = s.replace(w, rnd.choice([b"", b"#", b"box2"]), 1)
        if re.match(rb"^\s*\$variable\s*=\s*\S+\s*:\s*box\s*=\s*\d+\s*,\s*box->nnodes\s*=\s*\d+\s*$", n): return None
        return "line %r" % n, rep(a, b, n), "refuse"
    if t == "box":
        a, b = E["line"]; x = rnd.choice([nb, nb+1, -1, -5, 2**31-1, 10**9, -2**31, "x", ""]); n = b"$variable = %s : box = %s , box->nnodes = %d" % (E["name"].encode(), str(x).encode(), E["n"]); return "line %r" % n, rep(a, b, n), "refuse"
    if t == "nnodes":
        a, b = V["line"]; x = rnd.choice([V["n"]+1, V["n"]-1, 0, -1, V["n"]*2, 2**31-1, -2**31, "q", "", 2**32+V["n"]]); n = b"$variable = %s : box = %d , box->nnodes = %s" % (V["name"].encode(), V["box"], str(x).encode())
        if x == 2**32+V["n"]: return None
        return "line %r" % n, rep(a, b, n), "refuse"
    if t == "delvar": return "deleted record %s box %d" % (E["name"], E["box"]), rep(E["line"][0], E["data"][1]+1, b""), "refuse"
    if t == "renamevar": a, b = E["line"]; n = b"$variable = %s : box = %d , box->nnodes = %d" % (rnd.choice([b"nosuchvar", b"probe_uu", b"probe_", b"N"*3000]), E["box"], E["n"]); return "line %r" % n[:200], rep(a, b, n), "refuse"
    if t == "cut":
        a, b = V["data"]; k = rnd.randint(1, min(b-a, rnd.choice([1, 7, 8, 16, 64]))); p = rnd.randint(a, b-k); return "%d bytes of data of %s box %d cut out at %d" % (k, V["name"], V["box"], p-a), rep(p, p+k, b""), "refuse"
    if t == "insert":
        a, b = V["data"]; k = rnd.choice([1, 7, 8, 16, 64]); p = rnd.randint(a, b); return "%d bytes put into data of %s box %d at %d" % (k, V["name"], V["box"], p-a), rep(p, p, bytes(rnd.randrange(11, 256) for _ in range(k))), "refuse"
    if t == "dropnl": p = V["data"][1]; return "no newline after %s" % V["name"], rep(p, p+1, rnd.choice([b"", b" ", b"X"])), "refuse"
    if t == "extra":
        b = rnd.randrange(nb); n = [v for v in ck.vars if v["box"] == b][0]["n"]; p = rnd.choice([v["line"][0] for v in ck.vars]+[ck.endvar[0]])
        nm = rnd.choice([b"nosuchvar", b"Q"*rnd.choice([10, 99, 100, 101, 5000])]); blob = bytes(rnd.randrange(256) for _ in range(8*n)); return "record of unknown variable", rep(p, p, b"$variable = %s : box = %d , box->nnodes = %d\n" % (nm, b, n)+blob+b"\n"), "same"
    if t == "reorder":
        r = [d[v["line"][0]:v["data"][1]+1] for v in ck.vars]; rnd.shuffle(r); return "records in another order", d[:ck.vars[0]["line"][0]]+b"".join(r)+d[ck.endvar[0]:], "same"
    if t == "flip":
        s = bytearray(d); txt = list(range(0, ck.beginvar[1])); k = rnd.randint(1, 4); pos = []
        for _ in range(k): p = rnd.choice(txt); s[p] ^= rnd.randint(1, 255); pos.append(p)
        return "bytes %s changed" % pos, bytes(s), "any"
    if t == "garbage": n = rnd.choice([1, 100, 5000, 100000]); return "%d random bytes" % n, bytes(rnd.randrange(256) for _ in range(n)), "refuse"
    if t == "empty": return "empty file", b"", "refuse"
    if t == "longline":
        w = rnd.choice(["header", "par", "parname", "var", "end"]); L = rnd.choice([5000, 70000, 300000])
        if w == "header": return "long header", b"$BEGIN_checkpoint_header:"+b"x"*L+d[25:], "refuse"
        if w == "par": a, b = rnd.choice(ck.pars); return "long parameter", rep(b, b, b"y"*L), "any"
        if w == "parname": a, b = rnd.choice(ck.pars); return "long parameter name", rep(a, a, b"y"*L), "any"
        if w == "var": a, b = E["line"]; return "long variable line", rep(a, b, d[a:b]+b"z"*L), "refuse"
        return "long end line", rep(ck.endvar[0], ck.endvar[1], b"$END_variables"+b"z"*L), "refuse"
    if t == "unknownpar": a, b = rnd.choice(ck.pars); return "additional unknown parameter", rep(a, a, b"some_unknown_par = 3\n"), "same"
    if t == "binary": a, b = rnd.choice(ck.pars); return "binary parameter", rep(a, b, bytes(rnd.randrange(1, 256) for _ in range(40)).replace(b"\n", b"x").replace(b"=", b"x")), "refuse"
    if t == "wrongsection": return "sections exchanged", d[ck.beginvar[0]:ck.endvar[1]+2]+d[:ck.beginvar[0]], "refuse"
    if t == "zero": return "text zeroed", b"\0"*ck.beginvar[0]+d[ck.beginvar[0]:], "refuse"
def go(c):
    exe = c.build("asan", "core").link("probe", ["probe.c"]); jobs = []
    def prep(k):
        rnd = random.Random("%d-C08-%d" % (c.seed, k)); q = Conf(); q.k = k; q.N = rnd.randint(3, 5); q.m = rnd.randint(1, q.N-1)
        q.nb = rnd.randint(1, 3); L = ["physics = none", "dt = 0.05", "nboxes = %d" % q.nb, "evolution_method = %s" % rnd.choice(["rk", "icn", "euler"]), "probe_subset = %s" % rnd.choice(["all", "two", "one"]), "probe_seed = %d" % k, "checkpoint = yes",
            "checkpoint_restart_it = %d" % rnd.choice([1, 1, 0, -1]), "checkpoint_variables = %s" % rnd.choice(["auto", "auto", "all"]), "checkpoint_additional_variables = %s" % rnd.choice(["probe_guard", "probe_acc probe_guard"])]
        same = rnd.random() < .5; ns = [rnd.randint(3, 5) for _ in range(3)]; q.L = L
        for b in range(q.nb): L += pgrid.box(rnd, b, ns=ns if same else None, bases=["ChebExtrema"]*3)
        q.text = "\n".join(L)+"\n"; q.d = tempfile.mkdtemp(prefix="c08b-", dir=c.work)
        open(q.d+"/r.par", "w").write(q.text+"iterations = %d\n" % q.m)
        r = c.run([exe, q.d+"/log", "r.par"], q.d)
        if r.rc: c.fail("undisturbed run failed", q.text+r.out[-500:]); return []
        os.unlink(q.d+"/log"); open(q.d+"/r.par", "w").write(q.text+"iterations = %d\n" % q.N)
        q.data = open(q.d+"/r/checkpoint.0", "rb").read(); q.ck = Ck(q.data)
        q.mm = int(re.search(rb"\$iteration = (\d+)", q.data).group(1))
        a = c.run(["cp", "-a", q.d, q.d+"x"], "/"); r = c.run([exe, q.d+"x/log", "r.par"], q.d+"x"); q.ref = final(q.d+"x/log")
        if r.rc or q.ref[2] != 1: c.fail("undisturbed resume failed", q.text+r.out[-500:]); return []
        q.ev = {n.split(":")[0] for n in q.ref[0]} & {"probe_u", "probe_vx", "probe_vy", "probe_vz", "probe_hxx", "probe_hxy", "probe_hxz", "probe_hyy", "probe_hyz", "probe_hzz"}
        if "probe_subset = one" in q.text: q.ev = {"probe_u"}
        elif "probe_subset = two" in q.text: q.ev = {"probe_u", "probe_vx", "probe_vy", "probe_vz"}
        return [(q, i) for i in range(150 if c.thorough else 60)]
    def job(j):
        q, i = j; rnd = random.Random("%d-C08-%d-%d" % (c.seed, q.k, i)); m = None
        while m is None: m = mutate(rnd, q.ck, q.ev, q.nb)
        what, data, want = m; par = None
        if i % 15 == 14:   # the run is set up differently from the checkpoint
            w = rnd.choice(["nboxes", "n", "novar"]); data = q.data
            if w == "nboxes":
                L = [l for l in q.L if not l.startswith("nboxes")]+["nboxes = %d" % (q.nb+1)]+pgrid.box(rnd, q.nb, bases=["ChebExtrema"]*3); what, want = "run with one box more", "refuse"
            elif w == "n": dd = rnd.randint(1, 3); L = [re.sub(r"(box0_n%d = )\d+" % dd, r"\g<1>%d" % rnd.randint(8, 9), l) for l in q.L]; what, want = "run with another number of points", "refuse"
            else:
                s = {"all": "two", "two": "one", "one": "all"}; old = [l for l in q.L if l.startswith("probe_subset")][0].split()[-1]; L = [l if not l.startswith("probe_subset") else "probe_subset = "+s[old] for l in q.L]; what, want = "run evolves other variables", "any"
            par = "\n".join(L)+"\niterations = %d\n" % q.N
        d = tempfile.mkdtemp(prefix="c08-", dir=c.work); subprocess.check_call(["cp", "-a", q.d+"/.", d]); open(d+"/r/checkpoint.0", "wb").write(data)
        if par: open(d+"/r.par", "w").write(par)
        r = c.run([exe, d+"/log", "r.par"], d, timeout=120); f = final(d+"/log")
        desc = "config %d %s, expected %s; %s" % (q.k, what[:600], want, q.text)
        for x in r.san: c.fail(x, desc+"\n"+r.err[-3000:])
        if r.timeout: c.fail("hang", desc)
        elif r.rc < 0 or r.rc > 1: (None if r.san else c.fail("crash", "rc %s %s" % (r.rc, desc)))
        elif want == "refuse":
            if r.rc == 0: c.fail("damaged checkpoint accepted", desc)
            elif not re.search(r"Error|rror", r.out+r.err): c.fail("no error message", desc)
            # steps made before the checkpoint is read are part of starting up
            elif any(int(x.split()[0]) > max(q.mm, 1) for x in f[3]): c.fail("continued with a damaged checkpoint", desc)
            elif open(d+"/r_previous/checkpoint.0", "rb").read() != data: c.fail("refused, but the checkpoint was changed", desc)
            else: c.count("damaged checkpoints refused")
        elif want == "same":
            if r.rc or f[:2] != q.ref[:2]: c.fail("harmless change changed the result", "rc %s %s\n%s" % (r.rc, desc, r.out[-500:]))
            else: c.count("harmless changes accepted with the same result")
        elif want == "sameorrefuse":
            if r.rc == 0 and f[:2] != q.ref[:2]: c.fail("mismatched checkpoint changed the result", desc)
            c.count("mismatched runs")
        else: c.count("changed texts without memory error")
        c.case("%d %s" % (q.k, what), want == "refuse"); shutil.rmtree(d, ignore_errors=True)
    for x in c.pmap(prep, range(40 if c.thorough else 16)): jobs += x or []
    c.pmap(job, jobs); c.finish(min_cases=100)
main(go, "C08", rule="one truncation, structural change or mismatch of a real checkpoint, then a real resume; non-trivial: the change has to be refused")
