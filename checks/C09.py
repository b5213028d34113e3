#!/usr/bin/env python3
# C09: real runs with random output requests; every output file is decoded by an independent reader and compared with
# what a module recorded about the grid right before each output
import sys, os, random, struct, re, array, ctypes, math
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
class Bad(Exception): pass
def f32(v): return ctypes.c_float(v).value
class Rd:
    def __init__(s, b): s.b, s.p = b, 0
    def i(s): v, = struct.unpack_from("<q", s.b, s.p); s.p += 8; return v
    def d(s): v, = struct.unpack_from("<d", s.b, s.p); s.p += 8; return v
    def s(s): n = s.i(); v = s.b[s.p:s.p+n].decode(); s.p += n; return v
    def a(s, n): v = array.array("d"); v.frombytes(s.b[s.p:s.p+8*n]); s.p += 8*n; return v
def records(path):
    r = Rd(open(path, "rb").read()); out = []; same = []
    while 1:
        m = r.i()
        if m == 0x5ee: break
        if m == 0x5ed: same.append(r.i()); continue
        e = dict(kind=r.i(), t=r.d(), it=r.i(), names=r.s(), box=[])
        for b in range(r.i()):
            n = [r.i(), r.i(), r.i()]; B = dict(n=n, bb=[r.d() for _ in range(6)], crd={}, v={}); nn = n[0]*n[1]*n[2]
            for q in "XYZxyz": B["crd"][q] = r.a(nn) if r.i() else None
            while r.i():
                nm = r.s(); const = r.i(); c0 = r.s(); nc = r.i(); v = r.a(nn) if r.i() else None
                B["v"][nm] = dict(const=const, c0=c0, nc=nc, v=v, I=[r.d() for _ in range(4)] if v else None)
            e["box"].append(B)
        r.i(); out.append(e)
    return out, same
def due(it, T, di, dtout, dT):
    """0 or the number of this output"""
    if di > 0 and it % di == 0: return it//di+1
    if dtout > 0:
        k = math.floor(abs(T)/dtout+Fraction(1, 2)); x = abs(T)-k*dtout
        if -abs(dT)/2 < x <= abs(dT)/2: return k+1
    return 0
def near(a, b): return a == b or abs(a-b) <= 2e-15*abs(b) or (a != a and b != b) or (abs(b) < 1e-300 and abs(a-b) < 1e-310)
def nearf(a, b): b = f32(b); return a == b or abs(a-b) <= 6e-7*abs(b) or (a != a and b != b) or abs(a-b) < 1e-44
def weights(basis, n, a, b):
    L = b-a
    if basis == "Fourier": return [L/n]*n
    if basis == "ChebZeros":
        return [L/n*(1-2*sum(math.cos(2*k*math.pi*(j+.5)/n)/(4*k*k-1) for k in range(1, n//2+1) if 2*k < n)) for j in range(n)]
    N = n-1; w = []
    for j in range(n):
        s = 0
        for k in range(0, N//2+1):
            f = (.5 if k == 0 or 2*k == N else 1.)
            s += f*2./(1-4*k*k)*math.cos(2*k*j*math.pi/N)
        w.append(L/2*(2./N)*s*(.5 if j in (0, N) else 1.))
    return w
class Text:
    """decode text output files into records"""
    def __init__(s, c, d): s.c, s.d = c, d
def blocks0(txt):
    out = []
    for l in txt.decode().split("\n")[:-1]:
        a, b = l.split(" "); out.append((float(a), float(b)))
    if txt and not txt.endswith(b"\n"): raise Bad("unfinished line")
    return out
def blocks1(txt):
    out = []; cur = None
    for l in txt.decode().split("\n"):
        m = re.match(r'"time = (\S+)" , (.*)$', l)
        if m:
            if cur is not None: raise Bad("block not ended by a blank line")
            cur = (float(m.group(1)), dict(x.split("=") for x in m.group(2).split(", ")), [])
        elif l == "":
            if cur is not None: out.append(cur); cur = None
        else:
            if cur is None: raise Bad("data outside of a block: "+l[:60])
            cur[2].append([float(x) for x in l.split(" ")])
    if cur: raise Bad("unfinished block")
    return out
def blocks2(txt):
    out = []; cur = None
    for l in txt.decode().split("\n"):
        m = re.match(r'# "time = (\S+)", (.*)$', l)
        if m: cur = (float(m.group(1)), dict(x.split("=") for x in m.group(2).split(", ")), [[]]); out.append(cur)
        elif l == "":
            if cur and cur[2][-1]: cur[2].append([])
        else:
            if cur is None: raise Bad("data outside of a block: "+l[:60])
            cur[2][-1].append([float(x) for x in l.split(" ")])
    for o in out:
        while o[2] and not o[2][-1]: o[2].pop()
    return out
def dumps(raw):
    out = []; p = 0
    while p < len(raw):
        e = raw.index(b"\n", p); m = re.match(r'# "time = (\S+)" , box(\d+): n1=(\d+) n2=(\d+) n3=(\d+) , N=(\d+) numbers , type=float$', raw[p:e].decode())
        if not m: raise Bad("dump header %r" % raw[p:e][:100])
        N = int(m.group(6)); v = array.array("f"); v.frombytes(raw[e+1:e+1+4*N]); p = e+1+4*N
        if raw[p:p+2] != b"\n\n": raise Bad("dump not ended by two newlines")
        p += 2; out.append((float(m.group(1)), [int(m.group(k)) for k in (2, 3, 4, 5)], list(v)))
    return out
class Vtk:
    def __init__(s, raw): s.r, s.p = raw, 0
    def line(s):
        e = s.r.index(b"\n", s.p); l = s.r[s.p:e].decode(); s.p = e+1; return l
    def word(s):
        while 1:
            l = s.line()
            if l.strip(): return l
    def data(s, n, typ, text):
        if text:
            out = []
            while len(out) < n: out += [float(x) for x in s.line().split()]
            if len(out) != n: raise Bad("vtk: %d numbers instead of %d" % (len(out), n))
            return out
        w = 8 if typ == "double" else 4
        if s.p+w*n > len(s.r): raise Bad("vtk file too short")
        v = struct.unpack_from(">%d%s" % (n, "d" if w == 8 else "f"), s.r, s.p); s.p += w*n; return list(v)
def vtk(raw):
    f = Vtk(raw); o = {}
    if not f.line().startswith("# vtk DataFile Version"): raise Bad("vtk version line")
    m = re.match(r"variable (\S+), box (\d+), time ([^\s,]+)", f.line())
    if not m: raise Bad("vtk title")
    o["title"] = (m.group(1), int(m.group(2)), float(m.group(3))); t = f.line()
    if t not in ("ASCII", "BINARY"): raise Bad("vtk type "+t)
    text = o["text"] = t == "ASCII"; o["set"] = f.word().split()[1]
    k, *n = f.word().split(); n = o["dim"] = [int(x) for x in n]; N = n[0]*n[1]*n[2]
    if o["set"] == "STRUCTURED_POINTS":
        o["origin"] = [float(x) for x in f.word().split()[1:]]; o["spacing"] = [float(x) for x in f.word().split()[1:]]
    elif o["set"] == "STRUCTURED_GRID":
        w = f.word().split(); o["ctype"] = w[2]
        if w[0] != "POINTS" or int(w[1]) != N: raise Bad("vtk POINTS")
        o["points"] = f.data(3*N, w[2], text)
    elif o["set"] == "RECTILINEAR_GRID":
        o["c"] = []
        for q in range(3):
            w = f.word().split(); o["ctype"] = w[2]
            if w[0] != "XYZ"[q]+"_COORDINATES" or int(w[1]) != n[q]: raise Bad("vtk coordinates header %s" % w)
            o["c"].append(f.data(n[q], w[2], text))
    w = f.word().split()
    if w[0] != "POINT_DATA" or int(w[1]) != N: raise Bad("vtk POINT_DATA %s" % w)
    w = f.word().split(); o["typ"] = w[2]
    if w[0] != "SCALARS": raise Bad("vtk SCALARS")
    if not f.word().startswith("LOOKUP_TABLE"): raise Bad("vtk LOOKUP_TABLE")
    o["v"] = f.data(N, w[2], text)
    if f.r[f.p:].strip(): raise Bad("vtk: %d bytes after the data" % len(f.r[f.p:]))
    return o
def one(c, exe, k):
    rnd = random.Random("%d-C09-%d" % (c.seed, k)); d = tempfile.mkdtemp(prefix="c09-", dir=c.work)
    F = Fraction
    dts = rnd.choice(["0.1", "0.05", "0.01", "0.3", "0.125", "1", "0.037", "0.001", "-0.1"] if rnd.random() < .97 else ["-0.05"]); dT = F(dts)
    sub = k % 4 == 3   # a long run with a tiny grid: schedule
    N = rnd.randint(60, 160) if sub else rnd.randint(2, 7)
    nb = 1 if sub else rnd.randint(1, 4); L2 = rnd.random() < .3; one_jac = rnd.random() < .2
    par = {"physics": "none", "dt": dts, "iterations": str(N), "nboxes": str(nb), "o9_seed": str(rnd.randint(1, 10**6)), "Coordinates_set_bfaces": "no", "Coordinates_verbose": "no", "evolution_method": "rk"}
    bases = []; coords = []
    for b in range(nb):
        co = "SphericalDF" if rnd.random() < .25 and not sub else "Cartesian"; coords.append(co); bs = []
        if co != "Cartesian": par["box%d_Coordinates" % b] = co
        for q in (1, 2, 3):
            if co == "SphericalDF": bas, n, lo, hi = [("ChebExtrema", rnd.randint(3, 6), 1., 3.), ("Fourier", 2*rnd.randint(2, 3), 0., "2*pi"), ("Fourier", 2*rnd.randint(2, 3), 0., "2*pi")][q-1]
            else:
                bas = rnd.choice(["ChebExtrema", "ChebZeros", "Fourier"]+(["fd2_onesided", "fd2_periodic"] if L2 else [])); n = rnd.randint(4 if bas[0] == "f" else 2, 3 if sub and bas[0] != "f" else 6)
                lo = rnd.uniform(-3, 3); hi = lo+rnd.uniform(.5, 4)
            bs.append(bas)
            for key, v in (("n%d" % q, n), ("basis%d" % q, bas), ("min%d" % q, repr(lo)), ("max%d" % q, hi if hi == "2*pi" else repr(hi))): par["box%d_%s" % (b, key)] = str(v)
            if rnd.random() < .7: par["output%s0_box%d" % ("XYZ"[q-1], b)] = repr(rnd.choice([rnd.uniform(-4, 7), 0 if hi == "2*pi" else .5*(lo+hi), lo, 0]))
            if rnd.random() < .3: par["outputReplace%sby_box%d" % ("XYZ"[q-1], b)] = rnd.choice("xyzXYZ")
        bases.append(bs)
    vars_ = ["o9_s", "o9_vx", "o9_hxx", "o9_c", "o9_p", "o9_n", "o9_x", "o9_nosuch", "o9_vy", "o9_hyz"]
    req = {}; opts = []
    for dim in range(4):
        if rnd.random() < .2: continue
        al = rnd.random() < .4; l = rnd.sample(vars_, rnd.randint(1, 4 if sub else 8))
        if dim == 0: l = [x for x in l if x != "o9_x"] or ["o9_s"]
        seen = set(); l = [x for x in l if not al or (x[:4] not in seen and not seen.add(x[:4]))]
        if al: par[rnd.choice(["%ddoutputall" % dim, "%ddoutputall" % dim, "outputall"])] = "yes"
        di, dtout = -1, F(-1); z = rnd.random()
        if z < .45 or z > .9: di = rnd.randint(1, 4 if not sub else 50); par["%ddoutiter" % dim] = str(di)
        if z >= .45:
            m = rnd.choice([F(3, 2), F(5, 2), F(7, 2), F(2), F(3), F(1), F(1, 2), F(23, 10), F(15, 2), F(4, 3), F(50), F(10001, 10000)]); dtout = abs(dT)*m
            s = "%.12g" % float(dtout); dtout = F(s); par["%ddouttime" % dim] = s
        req[dim] = (l, al, di, dtout)
        if rnd.random() < .25: opts.append("--modify-par:%ddoutput=%s%s" % (dim, rnd.choice(["", " "]), "  ".join(l)))
        else: par["%ddoutput" % dim] = rnd.choice([" ", "   ", "\t"]).join(l)
    if "outputall" in par:
        req = {q: (v[0], True, v[2], v[3]) for q, v in req.items()}
        for q in req:
            seen = set(); l = [x for x in req[q][0] if x[:4] not in seen and not seen.add(x[:4])]; req[q] = (l,)+req[q][1:]
            opts = [o for o in opts if not o.startswith("--modify-par:%ddoutput=" % q)]; par["%ddoutput" % q] = " ".join(l)
    if L2: par["0doutput_normtype"] = "L2norm"
    if one_jac: par["0doutput_VolumeIntegralJacobian"] = "one"
    fm = []
    if rnd.random() < .85:
        if rnd.random() < .5: fm.append("dump")
        if rnd.random() < .8: fm.append("vtk")
        if rnd.random() < .9: fm.append(rnd.choice(["text", "binary"]))
        if rnd.random() < .9: fm.append(rnd.choice(["float", "double"]))
        if rnd.random() < .3: fm.append("fakepoints")
        if rnd.random() < .3: fm.append("addpoints")
        if rnd.random() < .3: fm.append("arrange_as_1d")
        if not fm: fm = ["dump"]
        rnd.shuffle(fm); par["3dformat"] = " ".join(fm)
    else: fm = ["dump", "float", "binary"]
    quick = []
    if rnd.random() < .5 and not sub and not any(b[0] == "f" for bs in bases for b in bs if b.startswith("fd2") and not L2):
        quick = [(rnd.randint(0, N), rnd.randrange(nb), rnd.randint(0, 2), rnd.uniform(0, 50), 1000+100*j) for j in range(rnd.randint(1, 2))]
        par["o9_quick"] = " ".join("%d %d %d %.15g %d" % q for q in quick)
    items = list(par.items()); rnd.shuffle(items)
    text = "".join("%s = %s\n" % x for x in items); open(d+"/r.par", "w").write(text)
    desc = "case %d opts %s\n%s" % (k, opts, text)
    r = c.run([exe, d+"/rec", "r.par"]+opts, d, timeout=200)
    for x in r.san: c.fail(x, desc+"\n"+r.err[-3000:])
    if r.rc != 0: c.fail("run failed", "rc=%s %s %s %s" % (r.rc, r.out[-500:], r.err[-500:], desc)); return
    try: ev, same = records(d+"/rec")
    except struct.error: c.fail("run ended early", "%s %s" % (r.out[-500:], desc)); return
    if not all(same): c.fail("output changed variables, parameters, time or iteration", desc)
    if sum(1 for e in ev if e["kind"] == 0) != N+1: c.fail("number of output times", "%d instead of %d %s" % (sum(1 for e in ev if e["kind"] == 0), N+1, desc)); return
    # expected content: file -> list of expected blocks
    exp = {}
    def add(f, x): exp.setdefault(f, []).append(x)
    for e in ev:
        if e["kind"] == 0:
            T = e["it"]*dT
            todo = {q: (v[0], v[1], due(e["it"], T, v[2], v[3], dT), v[2] > 0 and v[3] > 0) for q, v in req.items()}; efm = fm
            if not near(e["t"], float(T)): c.fail("grid time", "%r %r %s" % (e["t"], float(T), desc))
        else: todo = {q: (e["names"].split(), False if "outputall" not in par and par.get("%ddoutputall" % q) != "yes" else True, e["it"]+1, False) for q in range(4)}; efm = ["vtk", "text", "double", "arrange_as_1d"]
        for dim, (l, al, ns, both) in todo.items():
            if not ns: continue
            if dim == 0 and e["kind"] == 0: c.count("0d output times")
            for b, B in enumerate(e["box"]):
                for nm in l:
                    if nm not in B["v"] or (B["v"][nm]["const"] and e["it"]): continue
                    comps = [nm] if not al else [x for x in B["v"] if B["v"][x]["c0"] == B["v"][nm]["c0"]]
                    for q in comps:
                        v = B["v"][q]
                        if v["v"] is None: continue
                        x = (e, b, q)
                        if dim == 0:
                            for s in ("max", "min", "rms", "meanAbs", "mean", "VolInt"): add("%s_%s.%d" % (q, s, b), ("0", s)+x)
                        elif dim == 1:
                            for s in "XYZ": add("%s.%s%d" % (q, s, b), ("1", s)+x)
                        elif dim == 2:
                            for s in ("XY", "XZ", "YZ"): add("%s.%s%d" % (q, s, b), ("2", s)+x)
                        else:
                            if "dump" in efm: add("%s.XYZ%d" % (q, b), ("dump", 0)+x)
                            if "vtk" in efm: add("%s.%s%d_vtk" % (q, "xyz" if "addpoints" in efm and "fakepoints" not in efm else "XYZ", b), ("vtk", (efm, ns-1 if not (both and e["kind"] == 0) else None))+x)
    out = d+"/r"; have_ = [f for f in os.listdir(out) if f.startswith("o9_")]
    for f in have_:
        if f not in exp: c.fail("unexpected output file", "%s %s" % (f, desc))
    nbl = 0
    wc = {}
    def point(B, i, j, kk): return i+B["n"][0]*(j+B["n"][1]*kk)
    def nearest(B, q, X0):
        s = [1, B["n"][0], B["n"][0]*B["n"][1]][q]; xs = [B["crd"]["XYZ"[q]][s*i] for i in range(B["n"][q])]; m = min(abs(x-X0) for x in xs)
        return [i for i, x in enumerate(xs) if abs(x-X0) <= m+1e-12*(1+abs(X0))], xs
    def par0(q, b):
        v = par.get("output%s0_box%d" % ("XYZ"[q], b), "0"); return float(v)
    def repl(B, q, b): return B["crd"][par.get("outputReplace%sby_box%d" % ("XYZ"[q], b), "XYZ"[q])]
    for f, xs in sorted(exp.items()):
        p = out+"/"+f; kind = xs[0][0]; where = "%s: " % f
        if not os.path.exists(p): c.fail("output file missing", where+desc); continue
        try:
            if kind == "vtk": got = [(n, open(p+"/"+n, "rb").read()) for n in sorted(os.listdir(p))]
            else:
                raw = open(p, "rb").read(); got = {"0": blocks0, "1": blocks1, "2": blocks2, "dump": dumps}[kind](raw)
            if len(got) != len(xs): raise Bad("%d outputs instead of %d: times %s, due %s" % (len(got), len(xs), [g[0] for g in got][:40], [x[2]["t"] for x in xs][:40]))
            if kind == "vtk" and quick and xs: # fake times come in between
                xs = sorted(xs, key=lambda x: (x[2]["kind"], x[2]["it"]))
            for g, x in zip(got, xs):
                nbl += 1; _, s, e, b, nm = x; B = e["box"][b]; v = B["v"][nm]["v"]; n = B["n"]; t = e["t"]; nn = len(v)
                if kind != "vtk" and not near(g[0], t): raise Bad("time %r instead of %r" % (g[0], t))
                if kind == "0":
                    val = g[1]; 
                    if s == "max": ok = near(val, max(v)); w = max(v)
                    elif s == "min": ok = near(val, min(v)); w = min(v)
                    else:
                        A = sum(abs(y) for y in v)/nn; Q = sum(y*y for y in v)/nn
                        if L2: w = {"rms": math.sqrt(Q), "meanAbs": A, "mean": sum(v)/nn, "VolInt": sum(v)/nn}[s]; tol = 1e-12*math.sqrt(Q)
                        else:
                            if coords[b] == "SphericalDF" and not one_jac: Vol, I2, IA, I1 = B["v"][nm]["I"]; IA = IA; sc = abs(Vol)
                            else:
                                key = (b,)
                                if key not in wc: wc[key] = [weights(bases[b][q], n[q], B["bb"][2*q], B["bb"][2*q+1]) for q in range(3)]
                                W = wc[key]; Vol = I2 = IA = I1 = 0.
                                for kk in range(n[2]):
                                    for j in range(n[1]):
                                        w2 = W[2][kk]*W[1][j]
                                        for i in range(n[0]):
                                            y = v[point(B, i, j, kk)]; ww = w2*W[0][i]; Vol += ww; I2 += ww*y*y; IA += ww*abs(y); I1 += ww*y
                            w = {"rms": math.sqrt(I2/Vol) if I2/Vol >= 0 else float("nan"), "meanAbs": IA/Vol, "mean": I1/Vol, "VolInt": I1}[s]
                            m = max(abs(y) for y in v); tol = 1e-11*m*(abs(Vol) if s == "VolInt" else 1)*nn**.5
                            if s == "rms" and I2 < 1e-6*m*m*abs(Vol): tol = 1e-4*m   # square root of a small difference
                        ok = abs(val-w) <= tol or (val != val and w != w) or (s == "rms" and (w != w or val != val) and tol > 1e-5*m)
                    if not ok: raise Bad("%s of %s is %r instead of %r" % (s, nm, val, w))
                elif kind == "1":
                    q = "XYZ".index(s); ix = [0, 0, 0]; h = g[1]
                    for o in range(3):
                        if o == q: continue
                        ix[o] = int(h["ijk"[o]]); okx, cs = nearest(B, o, par0(o, b))
                        if ix[o] not in okx: raise Bad("line at %s index %d (%r), nearest to %r are %s" % ("XYZ"[o], ix[o], cs[ix[o]], par0(o, b), okx))
                        if not near(float(h["XYZ"[o]]), cs[ix[o]]): raise Bad("header %s=%s instead of %r" % ("XYZ"[o], h["XYZ"[o]], cs[ix[o]]))
                    if len(g[2]) != n[q]: raise Bad("%d points on line instead of %d" % (len(g[2]), n[q]))
                    cx = repl(B, q, b)
                    for m in range(n[q]):
                        ix[q] = m; P = point(B, *ix)
                        if len(g[2][m]) != 2 or not near(g[2][m][0], cx[P]) or not near(g[2][m][1], v[P]): raise Bad("point %d of line: %s instead of %r %r" % (m, g[2][m], cx[P], v[P]))
                elif kind == "2":
                    o = {"XY": 2, "XZ": 1, "YZ": 0}[s]; a1, a2 = [q for q in range(3) if q != o]; h = g[1]; ix = [0, 0, 0]
                    ix[o] = int(h["ijk"[o]]); okx, cs = nearest(B, o, par0(o, b))
                    if ix[o] not in okx: raise Bad("plane at %s index %d, nearest to %r are %s" % ("XYZ"[o], ix[o], par0(o, b), okx))
                    if not near(float(h["XYZ"[o]]), cs[ix[o]]): raise Bad("header %s" % h)
                    if len(g[2]) != n[a2] or any(len(row) != n[a1] for row in g[2]): raise Bad("plane has rows of %s points instead of %d rows of %d" % ([len(y) for y in g[2]], n[a2], n[a1]))
                    c1 = repl(B, a1, b); c2 = repl(B, a2, b)
                    for y in range(n[a2]):
                        for z in range(n[a1]):
                            ix[a1] = z; ix[a2] = y; P = point(B, *ix); w = g[2][y][z]
                            if len(w) != 3 or not near(w[0], c1[P]) or not near(w[1], c2[P]) or not near(w[2], v[P]): raise Bad("plane point %d %d: %s instead of %r %r %r" % (z, y, w, c1[P], c2[P], v[P]))
                elif kind == "dump":
                    if g[1] != [b]+n: raise Bad("dump header %s instead of %s" % (g[1], [b]+n))
                    for P in range(nn):
                        if not (g[2][P] == f32(v[P]) or nearf(g[2][P], v[P])): raise Bad("dump value %d: %r instead of %r" % (P, g[2][P], v[P]))
                else:
                    fmt, num = s; name, raw = g; o = vtk(raw)
                    m = re.match(re.escape(f[:-4])+r"_(\d{8})\.vtk$", name)
                    if not m or (num is not None and int(m.group(1)) != num): raise Bad("frame %s, number %s expected" % (name, num))
                    if o["title"][:2] != (nm, b) or not near(o["title"][2], t): raise Bad("title %s instead of %s" % (o["title"], (nm, b, t)))
                    txt = "text" in fmt; typ = "double" if "double" in fmt else "float"; eq = near if typ == "double" else nearf
                    if o["text"] != txt: raise Bad("text/binary")
                    if o["typ"] != typ or o.get("ctype", typ) != typ: raise Bad("float/double")
                    dset = "STRUCTURED_POINTS" if "fakepoints" in fmt else "STRUCTURED_GRID" if "addpoints" in fmt else "RECTILINEAR_GRID"
                    if o["set"] != dset: raise Bad("dataset %s instead of %s" % (o["set"], dset))
                    dim = [nn, 1, 1] if dset == "STRUCTURED_POINTS" and "arrange_as_1d" in fmt else n
                    if o["dim"] != dim: raise Bad("dimensions %s instead of %s" % (o["dim"], dim))
                    for P in range(nn):
                        if not eq(o["v"][P], v[P]): raise Bad("value %d: %r instead of %r" % (P, o["v"][P], v[P]))
                    if "points" in o:
                        for P in range(nn):
                            for q in range(3):
                                if not eq(o["points"][3*P+q], B["crd"]["xyz"[q]][P]): raise Bad("coordinate %d of point %d: %r" % (q, P, o["points"][3*P+q]))
                    if "c" in o:
                        for q in range(3):
                            st = [1, n[0], n[0]*n[1]][q]
                            for m_ in range(n[q]):
                                if not eq(o["c"][q][m_], B["crd"]["XYZ"[q]][st*m_]): raise Bad("%s coordinate %d: %r" % ("XYZ"[q], m_, o["c"][q][m_]))
                    if "origin" in o and dim == n:
                        for q in range(3):
                            if abs(o["origin"][q]-B["bb"][2*q]) > 1e-8*(1+abs(B["bb"][2*q])) or not (0 < o["spacing"][q] <= (B["bb"][2*q+1]-B["bb"][2*q])*1.001): raise Bad("origin or spacing")
                c.count("decoded %s" % {"0": "0D values", "1": "lines", "2": "planes", "dump": "3D dumps", "vtk": "VTK frames"}[kind])
        except Exception as ex: c.fail({"0": "0D", "1": "1D", "2": "2D", "dump": "3D dump", "vtk": "VTK"}[kind]+" output wrong", where+repr(ex)[:600]+"\n"+desc)
    c.case(desc, nbl > 0)
    shutil.rmtree(d, ignore_errors=True)
def go(c):
    exe = c.build("asan", "core").link("c09", ["c09.c"]); fast = c.build("O1", "core").link("c09", ["c09.c"])
    n = 4000 if c.thorough else 400
    c.pmap(lambda j: one(c, exe if j % 3 == 0 else fast, j), list(range(n)))
    c.finish(min_cases=250)
main(go, "C09", rule="random output requests (variables, dimensions, formats, intervals by iteration and time, positions) on random grids; distinct by the request")
