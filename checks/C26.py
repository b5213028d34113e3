#!/usr/bin/env python3
# C26: the companion tools in /repo/utilities, sanitized, on generated and real files; oracle: independent parsers and calculators here
import sys, os, random, re, math, struct, ctypes
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
TOOLS = ("floatdiff", "prune_checkpoint", "extractvar_from_checkpoint", "modify_checkpoint", "sgrid3d_to_1d", "sgrid3d_to_2d")
def fmt(f, x):
    return (f % x) if x == x and abs(x) != math.inf else ("-nan" if math.copysign(1, x) < 0 else "nan") if x != x else ("-inf" if x < 0 else "inf")
def f32(x):
    try: return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError: return math.copysign(math.inf, x)
# ---------------------------------------------------------------- checkpoints
class Ck:
    """header lines, variables [(line, name, box, bytes)]"""
    def __init__(s, b=None):
        s.head, s.vars = [], []
        if b is None: return
        i = b.index(b"$BEGIN_variables:\n"); s.head = b[:i].split(b"\n")[:-1]; i += len(b"$BEGIN_variables:\n")
        while not b.startswith(b"$END_variables", i):
            j = b.index(b"\n", i); l = b[i:j]; m = re.fullmatch(rb"\$variable = (\S+) : box = (\d+) , box->nnodes = (\d+)", l); n = int(m[3])*8
            s.vars.append([l, m[1], int(m[2]), b[j+1:j+1+n]]); i = j+1+n
            assert b[i:i+1] == b"\n", "no newline behind the data"
            i += 1
        s.tail = b[i:]
        assert s.tail == b"$END_variables\n\n"
    def bytes(s): return b"\n".join(s.head)+b"\n$BEGIN_variables:\n"+b"".join(l+b"\n"+d+b"\n" for l, n, bx, d in s.vars)+b"$END_variables\n\n"
def value(rnd):
    r = rnd.random()
    if r < .25: return struct.unpack("<d", bytes(rnd.choice(b"\n\r $=:\x00vari\xff") for _ in range(8)))[0]
    if r < .3: return rnd.choice([0.0, -0.0, math.nan, math.inf, -math.inf, 5e-324, 1.7976931348623157e308, 3e39])
    if r < .5: return float(rnd.randint(-5, 5))
    return rnd.uniform(-1, 1)*10**rnd.randint(-20, 20)
def pack(xs): return struct.pack("<%dd" % len(xs), *xs)
def synth(rnd):
    k = Ck(); nb = rnd.choice([1, 2, 3, 12]); n = [[rnd.randint(1, 5) for _ in range(3)] for _ in range(nb)]
    pars = ["physics = evolve ScalarWave", "parameterfile = a.par", "empty = ", "boxes = 3", "dt = 0.1", "long = "+"word "*rnd.choice([3, 300])+"x", "nxyz = 7", "box0_n11 = 77", "time = 3"]
    for b in range(nb): pars += ["box%d_n%d = %d" % (b, d+1, n[b][d]) for d in range(3)]
    rnd.shuffle(pars); k.pars = pars; k.n = n; k.time = repr(rnd.uniform(0, 9))
    k.head = [x.encode() for x in ["$BEGIN_checkpoint_header:  $bmin = 0 , $bmax = %d , $time = %s , $iteration = 3" % (nb-1, k.time), "$END_checkpoint_header", "", "$BEGIN_parameter_database:  $number_of_parameters = %d" % len(pars)]+pars+["$END_parameter_database", ""]]
    names = ["u", "gxx", "gxy", "alpha", "betax", "u_p", "X", "Kxx"]; rnd.shuffle(names)
    for b in range(nb):
        m = n[b][0]*n[b][1]*n[b][2]
        for v in names[:rnd.randint(1, 8)]: k.vars.append([b"$variable = %s : box = %d , box->nnodes = %d" % (v.encode(), b, m), v.encode(), b, pack([value(rnd) for _ in range(m)])])
    return k
def tool(c, d, name, args, want_rc, desc, vg=False):
    cmd = [c.exe[name]]+args
    if vg: cmd = ["valgrind", "-q", "--log-file="+d+"/vg.log"]+[c.exe["vg-"+name]]+args
    r = c.run(cmd, d, timeout=120)
    for x in r.san: c.fail(x, "%s %s\n%s\n%s" % (name, args, desc, r.err[-3000:]))
    if vg: c.memcheck_log(d+"/vg.log", name+" "+desc)
    if r.timeout or r.rc < 0: c.fail("%s crashed or hung" % name, "%s %s\n%s" % (args, desc, r.err[-2000:]))
    elif want_rc is not None and (r.rc if r.rc < 128 else r.rc-256) != want_rc: c.fail("%s exit code %d, not %d" % (name, r.rc, want_rc), "%s\n%s\n%s" % (args, desc, r.out[-2000:]))
    c.count("runs of "+name); return r
def differ(a, b):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return "byte %d of %d/%d: got %r want %r" % (i, len(a), len(b), a[max(0, i-40):i+40], b[max(0, i-40):i+40])
def same(c, key, desc, got, want):
    if got != want: c.fail(key, desc+"\n"+differ(got, want))
def rd(p):
    try: return open(p, "rb").read()
    except OSError: return b""
def ck_case(c, k, src=None, vg=False):
    rnd = random.Random("%d-C26-%d" % (c.seed, k)); d = tempfile.mkdtemp(prefix="c26-", dir=c.work)
    K = src or synth(rnd); B = K.bytes(); open(d+"/in.0", "wb").write(B); names = sorted({v[1].decode() for v in K.vars})
    what = rnd.choice(["modify", "modify", "prune", "extract", "chain"]); desc = ""
    if what in ("modify", "chain"):
        args, W = [], Ck(B)
        if rnd.random() < .7:
            v = rnd.choice(names+["nosuchvar", "g"]); m = rnd.choice([None, 2.0, -0.5, 1.0, 0.0, rnd.uniform(-3, 3)]); a = rnd.choice([None, 0.5, -3.0, 0.0, rnd.uniform(-1e3, 1e3)])
            o = [["-V", v]]+([["-M", repr(m)]] if m is not None else [])+([["-A", repr(a)]] if a is not None else []); rnd.shuffle(o); args += sum(o, [])
            for x in W.vars:
                if x[1].decode() == v:
                    xs = list(struct.unpack("<%dd" % (len(x[3])//8), x[3]))
                    for i in range(len(xs)):
                        old = xs[i]
                        if m is not None and m != 1: xs[i] *= m
                        if a is not None and a != 0: xs[i] += a
                        if old != old: xs[i] = None
                    x.append(xs)
        if rnd.random() < .5:
            p = rnd.choice([l.split(b" =")[0].decode() for l in K.head if b" = " in l and not l.startswith(b"$") and not (what == "chain" and re.match(rb"box\d+_n[123] ", l))]+["nosuchpar", "box0_n"]); v = rnd.choice(["17", "-3", "two words", "x"*rnd.choice([1, 3000]), "0.1"])
            args[0:0] = ["-P", p, v]; W.head = [(p+" = "+v).encode() if l.split(b" ")[0].decode() == p else l for l in W.head]
        tool(c, d, "modify_checkpoint", args+["in.0", "out.0"], 0, what, vg); desc = "modify "+" ".join(args)[:200]
        try: G = Ck(rd(d+"/out.0"))
        except Exception as e: c.fail("modify_checkpoint output unreadable", "%s %r" % (desc, e)); G = None
        if G:
            same(c, "modify_checkpoint header", desc, b"\n".join(G.head), b"\n".join(W.head))
            if [x[:3] for x in G.vars] != [x[:3] for x in W.vars]: c.fail("modify_checkpoint variables", desc)
            else:
                for g, w in zip(G.vars, W.vars):
                    if len(w) == 4: same(c, "modify_checkpoint other variable", desc+" "+str(w[1]), g[3], w[3]); continue
                    gs = struct.unpack("<%dd" % (len(g[3])//8), g[3])
                    for i, (x, y) in enumerate(zip(gs, w[4])):
                        if (y is None or y != y) != (x != x) or y is not None and y == y and struct.pack("<d", x) != struct.pack("<d", y): c.fail("modify_checkpoint value", "%s %s[%d] got %r want %r was %r" % (desc, w[1], i, x, y, struct.unpack_from("<d", w[3], 8*i))); break
        if G and what == "chain": K = G; B = G.bytes(); open(d+"/in.0", "wb").write(B)
    if what in ("prune", "chain"):
        keep = rnd.sample(names+["nosuchvar", names[0][:1]], rnd.randint(1, len(names))); W = Ck(B); W.vars = [v for v in W.vars if v[1].decode() in keep]
        L = list(keep)
        if rnd.random() < .3: L.insert(rnd.randint(0, len(L)), rnd.choice(["", "  "]))
        if rnd.random() < .3: L.append(L[0])
        open(d+"/keep.txt", "w").write("\n".join(rnd.choice(["", "", " ", "\t"])+x+rnd.choice(["", "", " "]) for x in L)+rnd.choice(["\n", ""]))
        tool(c, d, "prune_checkpoint", ["keep.txt", "in.0", "out.0"], 0, what, vg); same(c, "prune_checkpoint output", "keep %s" % L, rd(d+"/out.0"), W.bytes()); desc += "prune "+" ".join(keep)
    if what in ("extract", "chain"):
        W = Ck(B); bx = rnd.choice(W.vars); v, b = bx[1].decode(), bx[2]
        if rnd.random() < .1: v = "nosuchvar"
        if rnd.random() < .1: b = b+1
        asc = rnd.random() < .5; got = [x for x in W.vars if x[1].decode() == v and x[2] == b]
        tool(c, d, "extractvar_from_checkpoint", ["-V", v, str(b)]+["-A"]*asc+["in.0", "v.out"], 0, what, vg); o = rd(d+"/v.out"); desc += "extract %s %d" % (v, b)
        if not got:
            if o: c.fail("extractvar writes something for a variable that is not there", desc)
        else:
            P = {l.split(b" = ")[0]: l.split(b" = ")[1] for l in W.head if b" = " in l and not l.startswith(b"$")}; n = [int(P[b"box%d_n%d" % (b, i)]) for i in (1, 2, 3)]
            t = re.search(rb"\$time = (\S+)", W.head[0])[1].decode(); N = n[0]*n[1]*n[2]; xs = struct.unpack("<%dd" % N, got[0][3])
            h = '# "time = %s" , box%d: n1=%d n2=%d n3=%d , N=%d numbers , type=%s\n' % (t, b, *n, N, "ascii" if asc else "float")
            same(c, "extractvar header", desc, o[:len(h)], h.encode())
            if asc: same(c, "extractvar text", desc, o[len(h):], ("".join(fmt("%g", x)+"\n" for x in xs)+"\n").encode())
            else:
                g = o[len(h):]
                if len(g) != 4*N+1: c.fail("extractvar length", "%s %d %d" % (desc, len(g), N))
                else:
                    for i in range(N):
                        y = struct.unpack_from("<f", g, 4*i)[0]
                        if not (y == f32(xs[i]) or y != y and xs[i] != xs[i]): c.fail("extractvar value", "%s [%d] %r %r" % (desc, i, y, xs[i])); break
            if not asc and len(o) == len(h)+4*N+1: lines(c, rnd, d, "v.out", [(t, n, struct.unpack_from("<%df" % N, o, len(h)))], desc, vg)
    c.case("%s %d %s" % (what, k, desc)); shutil.rmtree(d, ignore_errors=True)
# ---------------------------------------------------------------- 3D files to lines and planes
def lines(c, rnd, d, f, blocks, desc, vg=False):
    mn = [min(b[1][i] for b in blocks) for i in range(3)]
    def idx(i): return rnd.randrange(mn[i])
    T = lambda t: "%f" % float(t)
    at = lambda bl, i, j, k: fmt("%g", bl[2][i+bl[1][0]*(j+bl[1][1]*k)])
    for mode in (1, 2, 3):
        i, j, k = idx(0), idx(1), idx(2)
        a = [["-i=%d" % i, "-j=%d" % j], ["-i=%d" % i, "-k=%d" % k], ["-j=%d" % j, "-k=%d" % k]][3-mode]
        r = tool(c, d, "sgrid3d_to_1d", a+[f], 0, desc, vg); w = ""
        for bl in blocks:
            w += '"time=%s\n' % T(bl[0])
            for l in range(bl[1][mode-1]): w += "%d  %s\n" % (l, at(bl, l if mode == 1 else i, l if mode == 2 else j, l if mode == 3 else k))
            w += "\n"
        same(c, "sgrid3d_to_1d output", desc+" "+" ".join(a), r.out, w)
        a = ["-k=%d" % k, "-j=%d" % j, "-i=%d" % i][mode-1]
        r = tool(c, d, "sgrid3d_to_2d", [a, f], 0, desc, vg); w = ""
        for bl in blocks:
            n = bl[1]; l1m, l2m = [(n[0], n[1]), (n[0], n[2]), (n[1], n[2])][mode-1]; w += '# "time=%s"\n' % T(bl[0])
            for l2 in range(l2m):
                for l1 in range(l1m): w += "%d %d %s\n" % (l1, l2, at(bl, *[(l1, l2, k), (l1, j, l2), (i, l1, l2)][mode-1]))
                w += "\n"
            w += "\n"
        same(c, "sgrid3d_to_2d output", desc+" "+a, r.out, w)
    # outside
    a = rnd.choice([["-i=0", "-j=%d" % max(b[1][1] for b in blocks)], ["-i=-1", "-k=0"]]); tool(c, d, "sgrid3d_to_1d", a+[f], 11, desc)
    tool(c, d, "sgrid3d_to_2d", [rnd.choice(["-i=%d" % max(b[1][0] for b in blocks), "-k=-1"]), f], 11, desc)
    c.count("3D files cut into lines and planes")
def blocks_of(b):
    """parser of 3D dumps"""
    R, p = [], 0
    while True:
        m = re.compile(rb'# "time = (\S+)" , box(\d+): n1=(\d+) n2=(\d+) n3=(\d+) , N=(\d+) numbers , type=float\n').search(b, p)
        if not m: return R
        N = int(m[6]); R.append((m[1].decode(), [int(m[i]) for i in (3, 4, 5)], struct.unpack_from("<%df" % N, b, m.end()))); p = m.end()+4*N
def cut_case(c, k, vg=False):
    rnd = random.Random("%d-C26c-%d" % (c.seed, k)); d = tempfile.mkdtemp(prefix="c26-", dir=c.work); B, bl = b"", []
    n = [rnd.randint(1, 7) for _ in range(3)]; bx = rnd.randint(0, 12)
    for t in range(rnd.randint(1, 4)):
        if rnd.random() < .2: n = [rnd.randint(1, 9) for _ in range(3)]
        N = n[0]*n[1]*n[2]; v = struct.pack("<%df" % N, *[f32(value(rnd)) for _ in range(N)]); tm = "%g" % rnd.choice([t*.1, rnd.uniform(0, 1e4), t*1e6])
        B += b'# "time = %s" , box%d: n1=%d n2=%d n3=%d , N=%d numbers , type=float\n' % (tm.encode(), bx, *n, N)+v+b"\n"; bl.append((tm, list(n), struct.unpack("<%df" % N, v)))
    open(d+"/u.XYZ0", "wb").write(B); lines(c, rnd, d, "u.XYZ0", bl, "generated %s" % [(b[0], b[1]) for b in bl], vg); c.case("cut %d %s" % (k, n)); shutil.rmtree(d, ignore_errors=True)
# ---------------------------------------------------------------- floatdiff
def num(rnd): return rnd.choice([0.0, 1.0, -1.0, rnd.uniform(-10, 10), rnd.uniform(-1, 1)*10**rnd.randint(-12, 12)])
def ftxt(rnd, x): return rnd.choice(["%.16g", "%.16g", "%g", "%.15e", "%f", "%+.3e"]) % x
def table(rnd): return [["%d" % (i+1)]+[ftxt(rnd, num(rnd)) for _ in range(rnd.randint(0, 4))] for i in range(rnd.randint(1, 25))]
def perturb(rnd, A):
    B = [list(r) for r in A]
    for r in B:
        if rnd.random() < .4:
            for j in range(1, len(r)):
                q = rnd.random(); x = float(r[j])
                if q < .3: r[j] = "%.16g" % (x*(1+rnd.choice([1e-14, 1e-9, 1e-5, 1e-2, -1e-5, 1])))
                elif q < .4: r[j] = "%.16g" % (x+rnd.choice([1e-12, 1e-6, -1e-6, 1.]))
                elif q < .5: r[j] = rnd.choice(["0", "nan", "-0.0", "text", "1e300"])
                elif q < .55: r[j] = "%.16e" % x
    return B
def text(rnd, R): return "".join(rnd.choice(["", "", " "]) + " ".join(r) + "\n" for r in R)
def atof(s):
    m = re.match(r"[-+]?(nan|inf|(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?)", s); return float(m[0]) if m else 0.
def cmp_lines(LA, LB, rt, at):
    """differences the tool has to list for two files with as many lines: (line, column, x1, x2)"""
    out, cols = [], []
    for i, (a, b) in enumerate(zip(LA, LB)):
        if a == b: continue
        x, y = a.split(), b.split()
        for j in range(min(len(x), len(y))):
            u, v = atof(x[j]), atof(y[j])
            if u == 0 and v == 0: continue
            rel = abs((v-u)/u) if u != 0 else abs((v-u)/v)
            if rel <= rt or abs(v-u) <= at: continue
            out.append((i+1, j+1, u, v))
        if len(x) != len(y): cols.append((i+1, min(len(x), len(y))+1))
    return out, cols
def fd_case(c, k, vg=False):
    rnd = random.Random("%d-C26f-%d" % (c.seed, k)); d = tempfile.mkdtemp(prefix="c26-", dir=c.work); what = rnd.choice(["files", "files", "files", "dirs", "more", "columns", "outfile", "missing", "only"])
    rt = rnd.choice([0, 1e-12, 1e-8, 1e-4, .5]); at = rnd.choice([0, 0, 1e-10, 1e-7, 1e-3]); det = rnd.choice([0, 1, 1, 2])
    nf = rnd.randint(1, 4) if what in ("dirs", "only") else 1; F = []; os.makedirs(d+"/a"); os.makedirs(d+"/b")
    for i in range(nf):
        A = table(rnd); B = perturb(rnd, A) if rnd.random() < .85 else [list(r) for r in A]
        if what == "columns": r = rnd.choice(B); r.append("5") if rnd.random() < .5 or len(r) < 2 else r.pop()
        LA = text(rnd, A).splitlines(); LB = [a if ra == rb else " ".join(rb) for a, ra, rb in zip(LA, A, B)]
        if what == "more": LB += ["%d 7 7" % (900+i) for i in range(rnd.randint(1, 3))] if rnd.random() < .5 else []; LB = LB if len(LB) > len(LA) else LB[:-1]
        F.append((LA, LB)); f = "f%d.X0" % i; open(d+"/a/"+f, "w").write("".join(x+"\n" for x in LA)); open(d+"/b/"+f, "w").write("".join(x+"\n" for x in LB))
    opts = ["-rt", repr(rt)]*(rt > 0)+["-at", repr(at)]*(at > 0)+["-d", str(det)]*(det != 1 or rnd.random() < .3)
    if what == "only": open(d+"/a/extra", "w").write("1 2\n")
    if what in ("dirs", "only"): args = opts+["a", "b"]
    elif what == "missing": args = opts+["a/f0.X0", "b/nosuch"]
    elif what == "outfile":
        o = subprocess.run(["diff", "-r", "a", "b"], cwd=d, capture_output=True).stdout; open(d+"/diff.out", "wb").write(o); args = opts+["--diff-out", "diff.out"]
    else: args = opts+["a/f0.X0", "b/f0.X0"]
    r = tool(c, d, "floatdiff", args, None, what, vg); rc = r.rc; desc = "%s rt=%g at=%g d=%d" % (what, rt, at, det)
    if what == "missing":
        if rc == 0: c.fail("floatdiff reports equality with a file that is missing", r.out)
        c.case(desc+str(k)); shutil.rmtree(d, ignore_errors=True); return
    want, anycol, warn = [], [], what == "only"
    for LA, LB in F:
        if what == "more" and len(LA) != len(LB): continue
        a, b = cmp_lines(LA, LB, rt, at); want += a; anycol += b
    more = what == "more" and any(len(a) != len(b) for a, b in F); exp = 2 if want or anycol or more else 1 if warn else 0
    tx = "\n".join(repr(f) for f in F)
    if rc != exp: c.fail("floatdiff exit code %d, not %d" % (rc, exp), "%s\nexpect %s %s\n%s\n%s" % (desc, want, anycol, tx, r.out))
    got = [(int(m[1]), int(m[2]), m[3], m[4]) for m in re.finditer(r"^L(\d+)C(\d+) (\S+) (\S+)  r=", r.out, re.M)]
    if not more:
        w = [(l, j, fmt("%.15e", u), fmt("%.15e", v)) for l, j, u, v in want] if det > 0 else []
        if got != w: c.fail("floatdiff does not list the differing numbers", "%s\nexpect %s\ngot %s\n%s" % (desc, w, got, tx))
        gc = [(int(m[1]), int(m[2])) for m in re.finditer(r"^L(\d+)C(\d+) WARNING", r.out, re.M)]
        if gc != (anycol if det > 0 else []): c.fail("floatdiff column warning", "%s %s %s\n%s" % (desc, gc, anycol, tx))
        m = re.search(r"=> (\d+) relevant difference", r.out)
        if (int(m[1]) if m else 0) != len(want)+len(anycol): c.fail("floatdiff count of differences", "%s\n%s" % (desc, r.out))
    elif det > 0 and "WARNING" not in r.out: c.fail("floatdiff silent about additional lines", r.out)
    c.count("floatdiff listed differences", len(got)); c.count("floatdiff exit code %d" % rc); c.case(desc+str(k)); shutil.rmtree(d, ignore_errors=True)
# ---------------------------------------------------------------- real files
def real(c, k):
    rnd = random.Random("%d-C26r-%d" % (c.seed, k)); d = tempfile.mkdtemp(prefix="c26-", dir=c.work); nb = rnd.randint(1, 3)
    p = "physics = ScalarWave ADMvars\nnboxes = %d\ndt = 0.01\niterations = 3\ncheckpoint = yes\ncheckpoint_dt = 0\n3doutiter = 1\n3doutput = ScalarWave_psi\n3dformat = dump\nevolution_method = rk\nevolution_method_rk = %s\n" % (nb, rnd.choice(["rk1", "rk4", "rk3"]))
    for b in range(nb): p += "".join("box%d_n%d = %d\n" % (b, i, rnd.randint(3, 7)) for i in (1, 2, 3))+"box%d_min1 = %d\nbox%d_max1 = %d\n" % (b, b, b, b+1)
    open(d+"/r.par", "w").write(p); r = c.run([c.sgrid, "r.par"], d, timeout=200); ck = d+"/r/checkpoint.0"
    if r.rc or not os.path.exists(ck): raise HarnessError("no checkpoint: "+r.err[-500:])
    B = rd(ck); K = Ck(B)
    if K.bytes() != B: raise HarnessError("checkpoint format differs from the parser")
    for b in range(nb):
        f = "r/ScalarWave_psi.XYZ%d" % b; bl = blocks_of(rd(d+"/"+f))
        if len(bl) != 4: raise HarnessError("dump format: %d blocks" % len(bl))
        lines(c, rnd, d, f, bl, "real run")
    for i in range(3): ck_case(c, 100000+10*k+i, src=K)
    # the tools' output is a checkpoint from which the program goes on
    v = rnd.uniform(-2, 2); tool(c, d, "modify_checkpoint", ["-V", "ScalarWave_psi", "-M", "0", "-A", repr(v), "r/checkpoint.0", "m.0"], 0, "real")
    open(d+"/keep.txt", "w").write("ScalarWave_psi\nScalarWave_psidot\n"); tool(c, d, "prune_checkpoint", ["keep.txt", "m.0", "n.0"], 0, "real")
    for f in ("m.0", "n.0"):
        shutil.rmtree(d+"/s", ignore_errors=True); os.makedirs(d+"/s_previous", exist_ok=True); shutil.rmtree(d+"/s_previous"); os.makedirs(d+"/s"); shutil.copy(d+"/"+f, d+"/s/checkpoint.0")
        open(d+"/s.par", "w").write(p.replace("iterations = 3", "iterations = 4")); r = c.run([c.sgrid, "--keep_previous" if 0 else "s.par"], d, timeout=200); out = rd(d+"/s/checkpoint.0")
        if r.rc or r.san or not out: c.fail("program does not resume from a checkpoint a tool wrote", "%s rc=%d\n%s" % (f, r.rc, r.out[-800:]+r.err[-800:])); continue
        N = Ck(out)
        if b"$iteration = 4" not in N.head[0]: c.fail("resumed run did not go on from the tool's checkpoint", f+str(N.head[0]))
        for x in N.vars:
            if x[1] == b"ScalarWave_psi_p":
                xs = struct.unpack("<%dd" % (len(x[3])//8), x[3])
                if any(y != v for y in xs): c.fail("resumed run does not start from the values the tool wrote", "%s box %d %r %r" % (f, x[2], xs[:3], v)); break
        c.count("runs resumed from the tools' output")
    c.case("real %d" % k); shutil.rmtree(d, ignore_errors=True)
def usage(c):
    d = tempfile.mkdtemp(prefix="c26-", dir=c.work); open(d+"/in.0", "wb").write(synth(random.Random(5)).bytes()); open(d+"/e", "w").write("")
    for t, a in [("floatdiff", []), ("floatdiff", ["-rt"]), ("floatdiff", ["e"]), ("floatdiff", ["-rt", "1", "e"]), ("floatdiff", ["-x", "e", "e"]), ("floatdiff", ["--diff-out", "nosuch"]),
                 ("prune_checkpoint", []), ("prune_checkpoint", ["nosuch", "in.0", "o"]), ("prune_checkpoint", ["e", "in.0", "o"]), ("prune_checkpoint", ["in.0", "nosuch", "o"]), ("prune_checkpoint", ["in.0", "in.0", "/nosuchdir/o"]),
                 ("modify_checkpoint", ["in.0"]), ("modify_checkpoint", ["-V", "in.0"]), ("modify_checkpoint", ["-V", "u", "in.0"]), ("modify_checkpoint", ["-M", "in.0"]), ("modify_checkpoint", ["-V", "u", "-A", "1", "nosuch", "o"]), ("modify_checkpoint", ["-Q", "u", "in.0", "o"]), ("modify_checkpoint", ["-V", "u", "-V", "u", "in.0", "o"]),
                 ("extractvar_from_checkpoint", ["-V", "u", "in.0"]), ("extractvar_from_checkpoint", ["-V", "u", "0", "-A", "in.0"]), ("extractvar_from_checkpoint", ["-A", "-A", "-A", "in.0", "o"]), ("extractvar_from_checkpoint", ["-V", "u", "0", "nosuch", "o"]),
                 ("sgrid3d_to_1d", []), ("sgrid3d_to_1d", ["-i=0", "-i=0", "in.0"]), ("sgrid3d_to_1d", ["-i=0", "-j=0", "nosuch"]), ("sgrid3d_to_2d", ["in.0"]), ("sgrid3d_to_2d", ["-x=0", "in.0"]), ("sgrid3d_to_2d", ["-i=0", "nosuch"])]:
        r = tool(c, d, t, a, None, "usage")
        if r.rc == 0: c.fail("%s accepts wrong arguments" % t, "%s\n%s" % (a, r.out))
        c.case("usage %s %s" % (t, a))
def go(c):
    c.exe = {}
    def comp(t, pre, fl):
        o = c.work+"/"+pre+t; r = subprocess.run(["gcc", "-w", "-g"]+fl+["-o", o, REPO+"/utilities/%s.c" % t, "-lm"], capture_output=True, text=True)
        if r.returncode: raise HarnessError("%s does not compile: %s" % (t, r.stderr[-1500:]))
        c.exe[pre+t] = o
    c.pmap(lambda a: comp(*a), [(t, "", ["-O1", "-fsanitize=address,undefined", "-fno-omit-frame-pointer"]) for t in TOOLS]+[(t, "vg-", ["-O1"]) for t in TOOLS])
    c.sgrid = c.build("asan", "main").link("sgrid", ["main.c"]); m = 12 if c.thorough else 1
    usage(c); c.pmap(lambda k: real(c, k), range(6*m))
    c.pmap(lambda k: ck_case(c, k), range(120*m)); c.pmap(lambda k: cut_case(c, k), range(25*m)); c.pmap(lambda k: fd_case(c, k), range(250*m))
    c.pmap(lambda k: ck_case(c, 50000+k, vg=True), range(6*m)); c.pmap(lambda k: cut_case(c, 50000+k, vg=True), range(m)); c.pmap(lambda k: fd_case(c, 50000+k, vg=True), range(8*m))
    c.finish(min_cases=300)
if __name__ == "__main__":
    main(go, "C26", rule="generated checkpoints with hostile binary data, checkpoints and 3D files of real runs, pairs of text files and directories with perturbed numbers, wrong arguments; non-trivial: every run of a tool")
