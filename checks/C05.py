#!/usr/bin/env python3
# C05: complete snapshots of a scratch tree around real program starts (run as an unprivileged user)
import sys, os, random, stat, hashlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
UID = 65534
def drop():
    os.setgroups([]); os.setgid(UID); os.setuid(UID); os.umask(0o022)
def snap(top):
    """path -> (kind, content) of everything below top, links not followed"""
    out = {}
    def rec(d, rel):
        for e in os.scandir(d):
            r = rel+e.name; st = os.lstat(e.path); m = st.st_mode
            if stat.S_ISLNK(m): out[r] = ("link", os.readlink(e.path))
            elif stat.S_ISDIR(m):
                out[r] = ("dir", stat.S_IMODE(m))
                rec(e.path, r+"/")
            elif stat.S_ISREG(m): out[r] = ("file", hashlib.md5(open(e.path, "rb").read()).hexdigest(), stat.S_IMODE(m))
            else: out[r] = ("other", stat.S_IFMT(m))
    rec(top, ""); return out
def sub(s, d):
    """what snapshot s holds at and below d (relative)"""
    r = {}
    for k, v in s.items():
        if k == d: r["."] = v
        elif k.startswith(d+"/"): r[k[len(d)+1:]] = v
    return r
ODD = ["plain", "with space", ".hidden", "-rf", "a'b\"c", "$(touch pwned)", ";touch pwned", "x*y", "..x", "tab\tname", "new\nline", "ünï", "L"*200, "`id`", "*", "~"]
def own(p):
    for root, ds, fs in os.walk(p):
        for x in [root]+[os.path.join(root, f) for f in fs+ds]:
            try: os.lchown(x, UID, UID)
            except OSError: pass
def fill(rnd, d, top, depth=0):
    os.makedirs(d, exist_ok=True)
    for _ in range(rnd.randint(0 if depth else 1, 6)):
        p = os.path.join(d, rnd.choice(ODD)+(str(rnd.randint(0, 99)) if rnd.random() < .5 else ""))
        if os.path.lexists(p) or len(p) > 3000: continue
        t = rnd.choice(["file", "file", "file", "dir", "dir", "linkdir", "linkfile", "dangling", "fifo", "linkup", "linkself", "rofile", "emptydir", "rodir"])
        try:
            if t == "file": open(p, "w").write("data %d\n" % rnd.randint(0, 1 << 30))
            elif t == "rofile": open(p, "w").write("ro"); os.chmod(p, 0o444)
            elif t == "dir" and depth < 4: fill(rnd, p, top, depth+1)
            elif t == "emptydir": os.mkdir(p)
            elif t == "linkdir": os.symlink(rnd.choice([top+"/outside", top+"/outside/inner", os.path.relpath(top+"/outside", d), top+"/work/sibling"]), p)
            elif t == "linkfile": os.symlink(top+"/outside/precious", p)
            elif t == "dangling": os.symlink("/nonexistent/x", p)
            elif t == "linkup": os.symlink("..", p)
            elif t == "linkself": os.symlink(os.path.basename(p), p)
            elif t == "fifo": os.mkfifo(p)
        except OSError: pass
def deep(d, n):
    p = d
    for i in range(n):
        p += "/"+("deep%d_" % i)+"x"*60
        os.mkdir(p); open(p+"/f", "w").write("x")
def one(c, exe, k):
    rnd = random.Random("%d-C05-%d" % (c.seed, k))
    top = tempfile.mkdtemp(prefix="c05-", dir=c.work)
    W = top+"/work"; os.makedirs(W+"/sibling"); os.makedirs(top+"/outside/inner")
    open(top+"/outside/precious", "w").write("precious"); open(top+"/outside/inner/y", "w").write("y"); open(W+"/sibling/z", "w").write("z")
    style = rnd.choice(["rel", "rel", "dot", "abs", "subdir", "vialink", "up"])
    base = rnd.choice(["run", "a b", "x.y", "r-1", "run.par.d", "..odd", "q'q", "n$HOME", "R"*120, "-dash"])
    if style == "abs": pre = W+"/"
    elif style == "dot": pre = "./"
    elif style == "subdir": os.makedirs(W+"/s1/s2"); pre = "s1/s2/"
    elif style == "vialink": os.makedirs(W+"/real"); os.symlink("real", W+"/lnk"); pre = "lnk/"
    elif style == "up": pre = "../work/"
    else: pre = ""
    if base == "-dash" and pre == "": base = "dash-"
    parrel = pre+base
    real = lambda p: os.path.relpath(os.path.realpath(os.path.dirname(os.path.join(W, p)))+"/"+os.path.basename(p), top)
    pars = "physics = none\nnboxes = 1\nbox0_n1 = 3\nbox0_n2 = 3\nbox0_n3 = 3\niterations = %d\n" % rnd.choice([0, 0, 1])
    setout = rnd.choice([None, None, None, "par", "cmd"]); outrel = parrel
    if setout: outrel = pre+rnd.choice(["other", "out_dir", "run_previous", "o.previous"])
    if setout == "par": pars += "outdir = %s\n" % outrel
    parfile = os.path.join(W, parrel+".par")
    if rnd.random() < .15:
        open(parfile+".orig", "w").write(pars); os.symlink(os.path.basename(parfile)+".orig", parfile)
    else: open(parfile, "w").write(pars)
    # neighbours whose names resemble the two directories
    O = os.path.join(W, outrel)
    for suf in ("2", "_previous2", "_previous.par", "_prev", ".bak", "_previous_previous", "_new"):
        if rnd.random() < .4:
            q = O+suf
            if os.path.lexists(q): continue
            if rnd.random() < .5: fill(rnd, q, top, 2)
            else: open(q, "w").write("neighbour")
    def prior(p):
        t = rnd.choice(["none", "dir", "dir", "dir", "file", "linkdir", "linkfile", "dangling"])
        if os.path.lexists(p): return "exists"
        if t == "dir":
            fill(rnd, p, top)
            if rnd.random() < .15: deep(p, rnd.choice([8, 20, 30]))
            if rnd.random() < .1:
                for i in range(rnd.choice([300, 1500])): os.mkdir(p+"/m%d" % i)
        elif t == "file": open(p, "w").write("a file")
        elif t == "linkdir": os.symlink(top+"/outside", p)
        elif t == "linkfile": os.symlink(top+"/outside/precious", p)
        elif t == "dangling": os.symlink("nowhere", p)
        return t
    tp, tc = prior(O+"_previous"), prior(O)
    nruns = rnd.choice([1, 1, 2, 3])
    ck = rnd.choice([None, None, None, "prev", "curr", "both"])
    if ck in ("prev", "both") and os.path.isdir(O+"_previous") and not os.path.islink(O+"_previous"): open(O+"_previous/checkpoint.0", "w").write("ck")
    if ck in ("curr", "both") and os.path.isdir(O) and not os.path.islink(O): open(O+"/checkpoint.0", "w").write("ck")
    stuck = tp == "dir" and not os.path.islink(O+"_previous") and rnd.random() < .12
    own(top)
    if stuck:   # something in the previous directory that this user cannot remove
        os.makedirs(O+"_previous/foreign", exist_ok=True); open(O+"_previous/foreign/root_file", "w").write("root's"); os.chown(O+"_previous/foreign", 0, 0); os.chmod(O+"_previous/foreign", 0o755)
    nontriv = False
    for n in range(nruns):
        keep = rnd.random() < .25
        if keep and (os.path.islink(O) or (os.path.lexists(O) and not os.path.isdir(O))): keep = False
        args = [parrel+(".par" if rnd.random() < .6 or ".par" in parrel else "")]
        if keep: args.append("--keep_previous")
        if setout == "cmd": args.append("--modify-par:outdir=%s" % outrel)
        before = snap(top)
        r = c.run([exe, "/dev/null", "/dev/null"]+args, W, timeout=120, preexec=drop)
        after = snap(top)
        ro, rp = real(outrel), real(outrel+"_previous"); rpar = os.path.relpath(os.path.realpath(parfile), top)
        desc = "style=%s out=%r keep=%d prior out=%s previous=%s ck=%s stuck=%d run %d" % (style, outrel, keep, tc, tp, ck, stuck, n)
        for x in r.san: c.fail(x, desc+"\n"+r.err[-3000:])
        if r.timeout: c.fail("hang", desc); break
        inside = lambda p: p in (ro, rp) or p.startswith(ro+"/") or p.startswith(rp+"/")
        bo = {p: v for p, v in before.items() if not inside(p)}; ao = {p: v for p, v in after.items() if not inside(p)}
        if bo != ao:
            diff = sorted(set(bo.items()) ^ set(ao.items()), key=str)[:6]
            c.fail("something outside the output directories changed", "%s: %s" % (desc, diff))
        # where checkpoint files are seen the way fopen sees them
        fb = lambda d, f="checkpoint.0": d+"/"+f in before and before[d+"/"+f][0] == "file"
        pk, kk = fb(rp), fb(ro)
        c.count("starts"); 
        if not keep and pk and not kk:
            c.count("starts that had to be refused")
            if r.rc == 0: c.fail("start not refused", "%s: rc 0 although only the previous directory has a checkpoint" % desc)
            if after != before: c.fail("refused start changed something", "%s: %s" % (desc, sorted(set(before.items()) ^ set(after.items()), key=str)[:6]))
            break
        if stuck and not keep:
            c.count("starts with an unremovable previous directory")
            b0, a0 = sub(before, ro), sub(after, ro)
            if b0:
                if r.rc == 0: c.fail("output mixed into the old output directory", desc)
                if a0 != b0: c.fail("old output directory changed although it could not be moved", "%s: %s" % (desc, sorted(set(b0.items()) ^ set(a0.items()), key=str)[:6]))
            break
        if r.rc != 0:
            if not r.san: c.fail("start failed", "%s: rc=%s\n%s\n%s" % (desc, r.rc, r.out[-800:], r.err[-800:]))
            break
        bo, bp, ao, ap = sub(before, ro), sub(before, rp), sub(after, ro), sub(after, rp)
        if keep:
            if bp != ap: c.fail("previous directory changed in spite of the keep option", "%s: %s" % (desc, sorted(set(bp.items()) ^ set(ap.items()), key=str)[:6]))
            for q, v in bo.items():
                if q != os.path.basename(parrel)+".par" and ao.get(q) != v: c.fail("keep option: old output lost", "%s: %r" % (desc, q)); break
        else:
            if bo != ap: c.fail("previous directory is not the old output directory", "%s: %s" % (desc, sorted(set(bo.items()) ^ set(ap.items()), key=str)[:6]))
            extra = [q for q in ao if q not in (".", os.path.basename(parrel)+".par")]
            if extra: c.fail("output directory is not fresh", "%s: %s" % (desc, extra[:6]))
            if len(bo) > 1: nontriv = True; c.count("old output directories moved"); c.count("entries removed with previous directories", len(bp))
        if ao.get(".", ("?",))[0] != "dir": c.fail("no output directory", desc)
        pc = ao.get(os.path.basename(parrel)+".par")
        if not pc or pc[0] != "file" or pc[1] != before[rpar][1]: c.fail("no faithful copy of the parameter file", "%s: %s" % (desc, pc))
        # leave something for the next run
        tc = tp = "made"
        if n+1 < nruns:
            if not os.path.islink(O): fill(rnd, O, top); own(O)
    c.case("%d %s" % (k, desc), nontriv)
    subprocess.call(["chmod", "-R", "u+rwx", top]); shutil.rmtree(top, ignore_errors=True)
def go(c):
    exe = c.build("asan", "core").link("c04", ["c04.c"])
    for d in (c.work, os.path.dirname(os.path.dirname(exe)), os.path.dirname(exe)): os.chmod(d, 0o755)
    r = c.run(["/bin/true"], "/", preexec=drop)
    c.pmap(lambda k: one(c, exe, k), range(6000 if c.thorough else 500))
    c.finish(min_cases=200)
main(go, "C05", rule="random working directories (links, odd and long names, many or deep entries, neighbours with similar names), parameter file paths, options and checkpoints; "
     "non-trivial: an old output directory with content was moved")
