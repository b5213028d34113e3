#!/usr/bin/env python3
# C07: every file changing system call of real runs that write and resume checkpoints is watched, killed at, or made to fail
import sys, os, random, signal, errno
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
UID = 65534
def drop():
    os.setgroups([]); os.setgid(UID); os.setuid(UID); os.umask(0o022)
def events(log):
    E = []; M = []; st = None; J = set(); N = 0; ended = False
    for l in open(log, errors="replace"):
        k, _, v = l.rstrip("\n").partition(" ")
        if k == "E": f = v.split(" "); E.append((int(f[0]), f[1], f[2], " ".join(f[3:])))
        elif k == "M": M.append(v)
        elif k == "X": st = int(v); ended = True
        elif k == "J": J.add(int(v))
        elif k == "N": N = int(v.split()[1])
    return E, M, st, J, N, ended
def final(log):
    r = {}; T = None; E = 0
    try:
        for l in open(log, errors="replace"):
            k, _, v = l.rstrip("\n").partition(" ")
            if k == "F":
                n, b, h = v.split()
                if n != "probe_acc": r[n+b] = h
            elif k == "T": T = v
            elif k == "E": E += 1
    except OSError: pass
    return r, T, E
def chown(d):
    for root, ds, fs in os.walk(d):
        for x in [root]+[os.path.join(root, f) for f in fs+ds]: os.lchown(x, UID, UID)
class Conf: pass
def configs(c, n):
    out = []
    for k in range(n):
        rnd = random.Random("%d-C07-%d" % (c.seed, k)); q = Conf(); q.k = k; q.N = rnd.randint(4, 6); q.di = rnd.choice([1, 1, 2]); q.rit = rnd.choice([1, 1, 0, -1])
        q.prev = rnd.random() < .25; q.name = rnd.choice(["r", "r", "run with space", "dir/r", "L"*100])
        nb = rnd.randint(1, 2); L = ["physics = none", "dt = 0.05", "nboxes = %d" % nb, "evolution_method = rk", "probe_subset = %s" % rnd.choice(["all", "one"]), "probe_seed = %d" % k, "checkpoint = yes",
                                     "checkpoint_di = %d" % q.di, "checkpoint_restart_it = %d" % q.rit, "0doutiter = 1", "0doutput = probe_u", "1doutiter = 2", "1doutput = probe_u", "1doutputall = yes"]
        for b in range(nb):
            for d in (1, 2, 3): L += ["box%d_n%d = %d" % (b, d, rnd.choice([3, 4, 6, 9])), "box%d_basis%d = ChebExtrema" % (b, d), "box%d_min%d = 0" % (b, d), "box%d_max%d = 1" % (b, d)]
        if rnd.random() < .3: L += ["checkpoint_variables = all"]
        if q.prev: L += ["checkpoint_previous = yes"]
        q.text = "\n".join(L)+"\n"; q.m = rnd.randint(q.di, q.N-2); q.m -= q.m % q.di; q.m = max(q.m, q.di)
        out.append(q)
    return out
def setup(q, d, n):
    os.makedirs(os.path.dirname(os.path.join(d, q.name)), exist_ok=True)
    open(os.path.join(d, q.name+".par"), "w").write(q.text+"iterations = %d\n" % n)
def go(c):
    exe = c.build("O1", "core").link("probe", ["probe.c"])
    tr = c.work+"/iotrace"; subprocess.check_call(["gcc", "-O1", "-w", "-o", tr, VERIF+"/harness/iotrace.c"])
    for d in (c.work, os.path.dirname(os.path.dirname(exe)), os.path.dirname(exe)): os.chmod(d, 0o755)
    def trace(q, d, mode, K, arg, log):
        r = c.run([tr, d+".logs/trace", d, os.path.join(d, q.name), mode, str(K), str(arg), "--", exe, d+".logs/"+log, q.name+".par"], d, timeout=200, preexec=drop)
        if r.rc != 0: c.errors.append("tracer failed: rc=%s %s" % (r.rc, r.err[-300:])); return None
        e = events(d+".logs/trace")
        if not e[5] and not r.timeout: c.errors.append("tracer gave no end"); return None
        if r.timeout: c.fail("hang", "config %d %s %s %s" % (q.k, mode, K, arg)); return None
        return e, r
    def mk(src=None):
        d = tempfile.mkdtemp(prefix="c07-", dir=c.work); os.mkdir(d+".logs"); os.chmod(d+".logs", 0o777)
        if src: subprocess.check_call(["cp", "-a", src+"/.", d])
        return d
    quick = not c.thorough; jobs = []
    def prepare(q):
        res = []
        a = mk(); setup(q, a, q.N); chown(a)
        x = trace(q, a, "watch", -1, 0, "log")
        if not x: return res
        q.ref = final(a+".logs/log"); q.ck = open(os.path.join(a, q.name, "checkpoint.0"), "rb").read() if os.path.exists(os.path.join(a, q.name, "checkpoint.0")) else b""
        desc = "config %d %s" % (q.k, q.text)
        if x[0][2] != 0 or q.ref[2] != 1: c.fail("undisturbed run failed", "rc %s %s %s" % (x[0][2], desc, x[1].out[-800:])); return res
        judge(q, x[0], "undisturbed run", desc)
        # stopped at m: start of the resume phase
        b = mk(); setup(q, b, q.m); chown(b)
        x2 = trace(q, b, "watch", -1, 0, "log0"); setup(q, b, q.N); q.stopped = mk(b); chown(q.stopped)
        y = trace(q, b, "watch", -1, 0, "log")
        if not y or y[0][2] != 0: c.fail("undisturbed resume failed", "%s %s" % (desc, y and y[1].out[-800:])); return res
        judge(q, y[0], "undisturbed resume", desc)
        if final(b+".logs/log")[:2] != q.ref[:2]: c.fail("undisturbed resume differs", desc)
        rnd = random.Random("%d-C07j-%d" % (c.seed, q.k))
        for ph, ev in (("fresh", x[0][0]), ("resume", y[0][0])):
            ck = [e for e in ev if "checkpoint" in e[3] or e[1] in ("cp", "mv", "rm", "sh") or "_previous" in e[3]]; other = [e for e in ev if e not in ck]
            if quick: sel = rnd.sample(ck, min(len(ck), 60))+rnd.sample(other, min(len(other), 8))
            else: sel = ck+rnd.sample(other, min(len(other), 20))
            for e in sel:
                modes = [("kill", 0), ("after", 0), ("err", errno.ENOSPC), ("err", errno.EIO), ("errall", errno.ENOSPC), ("err", errno.EACCES)]
                if e[2] == "write": modes += [("tear", 0), ("tear", rnd.randint(1, 99))]
                for m in (rnd.sample(modes, 2) if quick else modes): res.append((q, ph, e, m))
        shutil.rmtree(a, ignore_errors=True); shutil.rmtree(b, ignore_errors=True)
        return res
    def judge(q, e, what, desc):
        c.count("instants checked for a complete checkpoint", e[4]); c.count("file changing system calls seen", len(e[0]))
        for m in e[1]: c.fail("complete checkpoint lost", "%s: %s, %s" % (m, what, desc))
    def job(j):
        q, ph, e, (mode, arg) = j
        d = mk(q.stopped if ph == "resume" else None)
        if ph == "fresh": setup(q, d, q.N)
        chown(d)
        x = trace(q, d, mode, e[0], arg, "log")
        if not x: return
        E, M, st, J, N, _ = x[0]
        what = "%s run, %s %s at call %s" % (ph, mode, errno.errorcode.get(arg, arg), e)
        desc = "config %d %s" % (q.k, q.text)
        judge(q, x[0], what, desc)
        O = os.path.join(d, q.name); cf = O+"/checkpoint.0"
        c.count("disturbed runs: "+mode)
        hit = mode in ("err", "errall") and J
        if hit:
            c.count("injected errors", len(J))
            if st == 0:   # nothing reported: then nothing may be wrong with what is in place
                got = open(cf, "rb").read() if os.path.exists(cf) else b""
                f = final(d+".logs/log")
                if got != q.ck: c.fail("failure not reported, and the checkpoint in place is not the newest complete one", "%s: %s" % (what, desc))
                elif f[:2] != q.ref[:2]: c.fail("failure not reported, and the run is wrong", "%s: %s" % (what, desc))
                else: c.count("errors without consequence")
            else: c.count("errors reported by a nonzero exit status")
        # resume from what is left
        pf = O+"_previous/checkpoint.0"
        if not os.path.exists(cf) and os.path.exists(pf):   # the program refuses this and asks the user to rename
            r = c.run([exe, d+".logs/logx", q.name+".par"], d, timeout=200, preexec=drop)
            if r.rc == 0: c.fail("started although only the previous directory has a checkpoint", "%s: %s" % (what, desc))
            shutil.rmtree(O, ignore_errors=True); os.rename(O+"_previous", O); c.count("resumes after renaming the previous directory")
        had = os.path.exists(cf)
        if os.path.exists(d+".logs/log"): os.unlink(d+".logs/log")
        r = c.run([exe, d+".logs/log", q.name+".par"], d, timeout=200, preexec=drop)
        f = final(d+".logs/log")
        if r.rc != 0: c.fail("cannot resume", "%s: rc %s %s\n%s" % (what, r.rc, desc, r.out[-900:]))
        elif f[2] != 1 or f[:2] != q.ref[:2]: c.fail("resumed run differs", "%s: %s" % (what, desc))
        else: c.count("resumes that reached the same final state" if had else "restarts without checkpoint that reached the same final state")
        c.case("%d %s" % (q.k, what), bool(E))
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d+".logs", ignore_errors=True)
    for r in c.pmap(prepare, configs(c, 24 if c.thorough else 12)): jobs += r or []
    if quick: random.Random("%d" % c.seed).shuffle(jobs); jobs = jobs[:2200]
    c.pmap(job, jobs)
    c.finish(min_cases=100)
main(go, "C07", rule="one kill, torn write or injected error (or a full disk from there on) at one system call of a checkpointing or resuming run, then a real resume; distinct by configuration, call and fault")
