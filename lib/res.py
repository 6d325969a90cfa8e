"""Checks of the results file (R*)."""
import errno
from common import *
from common import _LOCK
from sim import *

def sched_tool(): return link("sched", ["sched.c"], [], "plain")

class World:
    """A directory with one results file; plays processes in it and records what happens."""
    def __init__(self, old=None, flag=False):
        sched_tool(); sim_driver(None, "plain")
        self.d = tmpname(".d"); os.mkdir(self.d)
        self.events, self.np, self.log, self.ops = [], 0, [], {}
        self.old = old
        if old is not None: open(os.path.join(self.d, "r.spf"), "w").write(old)
        self.flag0 = flag
        if flag: open(os.path.join(self.d, "r.spf.bsy"), "w").write("x")
    def path(self, f): return os.path.join(self.d, f)
    def play(self, procs, sched=(), kills=(), faults=(), strict=False, timeout=60):
        """procs: (cfg, script, commands); returns nothing, appends to self.events."""
        base = self.np; self.np += len(procs)
        plan = ["watch " + self.path("r.spf"), "flag " + self.path("r.spf.bsy")]
        for i, (cfg, script, cmds) in enumerate(procs):
            n = base + i
            open(self.path("p%d.spf" % n), "w").write(cfg.text(random.Random(n)))
            open(self.path("c%d" % n), "w").write("\n".join(["out " + " ".join(script), "init p%d.spf -1 1" % n] + cmds) + "\n")
            plan.append("proc %s %s c%d a%d" % (self.d, sim_driver(None, "plain"), n, n))
        plan.append("sched " + " ".join(map(str, sched)))
        plan += ["kill %s" % " ".join(map(str, k)) for k in kills] + ["fault %d %d %d" % f for f in faults]
        pf, lf = self.path("plan%d" % base), self.path("log%d" % base)
        open(pf, "w").write("\n".join(plan) + "\n")
        rc, out = run_proc([sched_tool(), pf, lf], timeout=timeout)
        ls = open(lf).read().split("\n")
        if rc not in (0, 4) or (rc == 0 and "end" not in ls): raise Infra("sched: %s %s" % (rc, out))
        self.log += [l for l in ls if l and l[0] != "F"] + (["no progress"] if rc else [])
        deltas = [self.deltas(base + i, p) for i, p in enumerate(procs)]
        active = set()
        for l in ls:
            w = l.split(" ", 1)
            a = w[1].split() if len(w) > 1 else []
            if w[0] == "B": p = base + int(a[0]); active.add(p); self.ev("begin", p=p, delta=deltas[int(a[0])].pop(0) if deltas[int(a[0])] else [])
            elif w[0] == "R":
                p = base + int(a[0]); active.discard(p); self.ev("ret", p=p, rc=int(a[1]))
                if not strict and not active: self.snap()
            elif w[0] == "O": self.ops.setdefault(base + int(a[0]), []).append(a[2])
            elif w[0] == "E": p = base + int(a[0]); self.ev("fault", p=p, op=self.ops[p][[f[1] for f in faults if f[0] == int(a[0])][0] - 1])
            elif w[0] == "K": p = base + int(a[0]); active.discard(p); self.ev("die", p=p)
            elif w[0] == "X" and int(a[1]) != 0: self.ev("crash", p=int(a[0]), st=int(a[1]))
            elif w[0] == "F": self.cur = w[1]; strict and self.snap()
            elif w[0] == "L": self.cflag = a[0] == "1"; (strict or not active) and self.ev("flag", v=self.cflag)
        self.snap()
        if rc: self.ev("crash", p=0, st=-1)
    def ev(self, e, **k): self.events.append(dict(e=e, **k))
    def snap(self):
        has, text = self.cur[0] == "Y", self.cur[1:].replace("|", "\n")
        rows = points(text) if has else []
        self.ev("snap", has=has, ok=not rows or rows[0] not in ([-1], [-2]), rows=rows)
    def user(self):
        for f in ("r.spf.bsy",):
            if os.path.exists(self.path(f)): os.unlink(self.path(f))
        self.ev("user")
    def same(self): self.ev("same", eq=open(self.path("r.spf")).read() == self.old)
    def deltas(self, n, proc):
        """What process n counted before each of its saves, from the decoder calls."""
        cfg, script, _ = proc
        out, cnt, i, cs = [], {}, 0, None
        ls = open(self.path("a%d" % n)).read().split("\n") if os.path.exists(self.path("a%d" % n)) else []
        saves = 0
        for l in ls:
            w = l.split(" ")
            if w[0] == "csnrn": cs = int(w[1])
            elif w[0] == "dec":
                en = w[2].count("1"); t = script[min(i, len(script) - 1)]; i += 1
                r = cnt.setdefault(micro(cfg.snr[cs]), [0] * 6)
                er = int(w[1]) == 1
                for c, v in enumerate((1, en, en > 0, er, cfg.ml and not er, cfg.ml and not er and t == "m" and en > 0)): r[c] += int(bool(v)) if c != 1 else v
            elif w[0] == "save": out.append([[s] + r for s, r in sorted(cnt.items())]); cnt = {}
        out.append([[s] + r for s, r in sorted(cnt.items())])   # of a save that never returned
        return out
    def record(self, **k):
        d = parse_res(self.old) if self.old is not None else {}
        r = {"old": {"has": self.old is not None, "closed": "?" not in str([v for v in d.values() if isinstance(v, list)]), "rows": points(self.old) if self.old is not None else [],
                     "lens": {k: len(d[k]) if isinstance(d.get(k), list) else 0 for k in LISTS}},
             "flag0": self.flag0, "events": self.events, "log": [l for l in self.log if l[0] in "ORBKE"][:400]}
        r.update(k)
        shutil.rmtree(self.d, ignore_errors=True)
        return r

def res_text(rng, rows, n=8, k=3):
    """A results file as the simulator writes it."""
    def g(key, f): return "%s { %s}\n" % (key, "".join(f(r) + " " for r in rows))
    def snr(r):
        s = str(D(r[0]) / 1000000)
        return s.rstrip("0").rstrip(".") if "." in s else s
    return ("code_n %d\ncode_k %d\n\n" % (n, k) + g("SNR", snr) + g("tr_num", lambda r: str(r[1])) + g("en_bit", lambda r: str(r[2])) + g("en_bl", lambda r: str(r[3])) + g("erasures_num", lambda r: str(r[4]))
            + g("WER", lambda r: "%.3e" % (r[3] / r[1])) + g("ERR", lambda r: "%.3e" % (r[4] / r[1])) + g("ml_tr_num", lambda r: str(r[5])) + g("enml_bl", lambda r: str(r[6]))
            + g("MLER", lambda r: "%.3e" % (r[6] / r[5] if r[5] else 0)) + "\n% SNR   BER        WER        ERR        ML LB")
def rand_rows(rng, n, big=False):
    out = []
    for s in sorted(rng.sample(range(-40, 100), n)):
        t = rng.randint(1, 10**9 if big else 500); tm = rng.choice((0, rng.randint(0, t)))
        bl = rng.randint(0, t)
        out.append([s * 100000, t, rng.randint(bl, min(3 * bl, 2 * 10**9)), bl, t - tm, tm, rng.randint(0, tm)])
    return out
def saver(rng, snrs=("1", "2"), saves=2, last=True):
    cfg = SimCfg(rng.sample(list(snrs), rng.randint(1, len(snrs))), min_trn=rng.choice((2, 3)), minerr=1, ml=rng.random() < 0.7, k=3, n=8)
    script = [rng.choice(("c", "m", "m", "e5", "e0")) for _ in range(20)] + ["m"] * 60 + ["e5"]
    cmds = []
    for _ in range(saves): cmds += ["run"] * rng.randint(1, 3) + ["save"]
    if last: cmds += ["run", "save"]
    return cfg, script, cmds + ["close"]

def save_model(chk):
    chk.model("SaveProto", "SaveProto3.cfg" if THOROUGH else "SaveProto.cfg")
    chk.model("SaveProto", "SaveProtoLive.cfg")

def judge(chk, recs, what):
    for i, r in enumerate(recs): r["id"] = i + 1
    bad = chk.validate("TraceSave", recs, what="scheduled saves")
    for b in bad[:6]:
        chk.violation("%s: %s" % (what, json.dumps({k: v for k, v in b.items() if k != "log"})[:900]), b)

def r02(chk):
    rng = chk.rng
    save_model(chk)
    worlds = []
    # all schedules of two savers with up to two (thorough: three) switches
    N, busy = 14, 45
    for first in (0, 1):
        for a in range(0, N + 1):
            for b in list(range(1, N + 1)) + [busy]:
                if THOROUGH: worlds += [(2, [first] * a + [1 - first] * b + [first] * c) for c in (list(range(1, N + 1)) + [busy])]
                elif (a + b + SEED) % 2: worlds.append((2, [first] * a + [1 - first] * b))
    for _ in range(1500 if THOROUGH else 150):
        n = rng.choice((2, 2, 3, 3, 4))
        s, p = [], 0
        while len(s) < 20 * n:
            p = rng.randrange(n); s += [p] * rng.choice((1, 1, 2, 3, 6, 12))
        worlds.append((n, s))
    seeds = [rng.randint(1, 10**9) for _ in worlds]
    def one(ws):
        (n, s), seed = ws
        r = random.Random(seed)
        w = World(res_text(r, rand_rows(r, r.randint(1, 3))) if r.random() < 0.5 else None)
        w.play([saver(r, ("1", "2", "3.25"), saves=r.choice((1, 1, 2))) for _ in range(n)], s)
        # everybody again, alone: what was kept back is not lost (their last save), a newcomer sees all
        w.play([saver(r, ("1", "2", "3.25"), saves=1)])
        return w.record(sched=s)
    recs = parallel(one, list(zip(worlds, seeds)))
    chk.extra["schedules"] = len(recs)
    chk.extra["saves"] = sum(1 for r in recs for e in r["events"] if e["e"] == "ret")
    chk.extra["saves_refused_busy"] = sum(1 for r in recs for e in r["events"] if e["e"] == "ret" and e["rc"])
    judge(chk, recs, "concurrent saves lost, doubled or refused increments")

FAULTS = {"open": (errno.EACCES, errno.ENOSPC, errno.EMFILE), "openat": (errno.EACCES, errno.ENOSPC, errno.EMFILE), "creat": (errno.EACCES,), "write": (errno.ENOSPC, errno.EIO), "read": (errno.EIO,),
          "close": (errno.EIO,), "rename": (errno.EACCES, errno.ENOSPC), "renameat": (errno.EACCES,), "renameat2": (errno.EACCES,), "unlink": (errno.EACCES,), "unlinkat": (errno.EACCES,), "link": (errno.EACCES,),
          "fsync": (errno.EIO,), "ftruncate": (errno.EIO,), "lseek": (), "fstatat": (), "stat": (), "access": ()}
def wide(rng, n):
    """A simulation of many points, so that the results file takes several writes."""
    cfg = SimCfg(rand_snrs(rng, n), min_trn=1, minerr=1, ml=True, k=3, n=8)
    return cfg, ["m", "e3", "m", "e1"], ["run"] * (n // 2) + ["save", "runall", "save", "save", "close"]
def baseline(old, p):
    w = World(old); w.play([p]); ops = w.ops[0]; w.record()
    return ops
def r03(chk):
    rng = chk.rng
    save_model(chk)
    jobs = []
    for i in range(8 if THOROUGH else 4):
        old = res_text(rng, rand_rows(rng, rng.choice((1, 3, 40)))) if i % 2 else None
        p = wide(rng, 8) if i == 1 else wide(rng, 40) if i == 2 else saver(rng, saves=2)
        for k, op in enumerate(baseline(old, p), 1):
            for e in FAULTS.get(op, (errno.EIO,)): jobs.append((old, p, [(0, k, e)], rng.randint(1, 10**9)))
    def one(j):
        old, p, faults, seed = j
        w = World(old)
        w.play([p], faults=faults)
        left = any(e["e"] == "fault" and e["op"].startswith("unlink") for e in w.events)
        if left: w.user()
        w.play([saver(random.Random(seed))])
        return w.record(faults=faults)
    recs = parallel(one, jobs)
    # old files that must not be touched; busy flags of others; targets that cannot be written
    for i in range(60 if THOROUGH else 24):
        rows = rand_rows(rng, rng.randint(1, 5)); t = res_text(rng, rows)
        kind = i % 8
        p = saver(rng, saves=2)
        ls = t.split("\n")
        gi = [j for j, l in enumerate(ls) if l.split(" ")[0] in LISTS]
        if kind == 0: j = rng.choice(gi); ls[j] = re.sub(r" \S+ }", " }", ls[j])            # a value less in one list
        elif kind == 1: j = rng.choice(gi); ls[j] = ls[j].replace("{ ", "{ 1 ")             # a value more
        elif kind == 2: j = rng.choice(gi); del ls[j]                                          # a list missing
        elif kind == 3: j = rng.choice(gi); ls[j] = ls[j].replace(" }", ""); ls = ls[:j + 1]  # cut off in a list
        elif kind == 4:                                                                          # more than the limit
            rows = rand_rows(rng, 51); ls = res_text(rng, rows).split("\n")
        elif kind == 5: ls = res_text(rng, rand_rows(rng, 50)).split("\n"); p = saver(rng, ("20.5", "21"), saves=2)   # full
        w = World("\n".join(ls), flag=kind in (6,))
        if kind == 7: os.mkdir(w.path("r.spf.tmp")) if False else None
        w.play([p]); w.same() if kind <= 6 else None
        if kind == 6: w.user(); w.play([saver(rng)])
        recs.append(w.record(kind=kind))
    chk.extra["fault_points"] = len(jobs)
    judge(chk, recs, "a failed save did harm or cannot be retried")

def r04(chk):
    rng = chk.rng
    save_model(chk)
    jobs = []
    for i in range(8 if THOROUGH else 4):
        old = res_text(rng, rand_rows(rng, rng.choice((1, 3, 40)))) if i % 2 else None
        p = wide(rng, 8) if i == 1 else wide(rng, 40) if i == 2 else saver(rng, saves=2)
        ops = baseline(old, p)
        for k, op in enumerate(ops, 1):
            jobs.append((old, [p], [(0, k)], [], rng.randint(1, 10**9)))
            if op == "write": jobs += [(old, [p], [(0, k, t)], [], rng.randint(1, 10**9)) for t in (1, 100, 2000)]
    for _ in range(400 if THOROUGH else 80):   # others are saving, too
        n = rng.choice((2, 3)); s = []
        while len(s) < 16 * n: s += [rng.randrange(n)] * rng.choice((1, 2, 3, 6, 12))
        jobs.append((res_text(rng, rand_rows(rng, 2)) if rng.random() < 0.5 else None, [saver(rng, saves=1, last=False) for _ in range(n)], [(0, rng.randint(1, 14))], s, rng.randint(1, 10**9)))
    def one(j):
        old, ps, kills, s, seed = j
        w = World(old)
        w.play(ps, s, kills=kills, strict=True)
        w.user()
        w.play([saver(random.Random(seed))], strict=True)
        return w.record(kills=kills, sched=s)
    recs = parallel(one, jobs)
    chk.extra["crash_points"] = len(jobs)
    judge(chk, recs, "a crash while saving damaged the results")

def save_event(rc, text):
    """What the results file says after a save."""
    e = {"e": "save", "rc": rc, "has": text is not None, "wf": False, "rows": [], "n": 0, "k": 0, "rates": [], "table": []}
    if text is None: return e
    d, pts = parse_res(text), points(text)
    e["wf"] = pts[:1] not in ([[-1]], [[-2]]) and all(isinstance(d.get(x), list) and "?" not in d[x] for x in ("WER", "ERR", "MLER"))
    e["rows"] = pts if e["wf"] else []
    if e["wf"]:
        if len({len(d[x]) for x in ("WER", "ERR", "MLER")}) == 1: e["rates"] = [[dec2(x) for x in r] for r in zip(d["WER"], d["ERR"], d["MLER"])]
        for f in ("n", "k"): e[f] = int(d["code_" + f]) if re.fullmatch(r"\d+", str(d.get("code_" + f))) else -1
        tab = [l.split()[1:] for l in text.split("\n") if re.match(r"% +-?\d", l)]
        if all(len(t) == 5 for t in tab): e["table"] = [[dec2(x) for x in t] for t in tab]
    return e
def res_event(text):
    """sim_cur_res_str"""
    ls = text.split("\n")
    return {"e": "res", "wf": ls[0].startswith("SNR"), "rows": [[dec2(x) for x in l.split()] for l in ls[1:]]}

def res_record(rng, sessions, old_rows, nk=None, flavour="asan"):
    """sessions: (cfg, script, ret_int, cmds); 'gone' among the commands deletes the file.
    The sessions run one after another in one directory."""
    k, n = nk
    text = res_text(rng, old_rows, n, k) if old_rows else None
    evs, crash, spfs = [], None, []
    d = tmpname(".d"); os.mkdir(d)
    if text is not None:
        if rng.random() < 0.5:   # laid out by hand
            text = re.sub(r" ", lambda m: rng.choice((" ", "  ", "\n", ", ")), re.sub(r"%.*", "", text)) + rng.choice(("", "\n%x", "\nfoo { 1 2 3 }\n"))
        open(os.path.join(d, "r.spf"), "w").write(text)
    for j, (cfg, script, ret, cmds) in enumerate(sessions):
        spf = cfg.text(rng); spfs.append(spf)
        if j: evs.append({"e": "start", "cfg": cfg.rec(), "snr": [micro(x) for x in cfg.snr]})
        open(os.path.join(d, "p.spf"), "w").write(spf)
        open(os.path.join(d, "cmds"), "w").write("\n".join(["out " + " ".join(script), "init p.spf %d 1" % ret] + cmds) + "\n")
        if os.path.exists(os.path.join(d, "ans")): os.unlink(os.path.join(d, "ans"))
        rc, out = run_proc([sim_driver(None, flavour), "cmds", "ans"], cwd=d, timeout=100)
        ls = [l for l in open(os.path.join(d, "ans")).read().split("\n") if l] if os.path.exists(os.path.join(d, "ans")) else []
        if rc != 0 or "end" not in ls or "init 0" not in ls: crash = "%s: %s" % (rc, crash_text(out)); break
        sv, codes = None, [int(c.split()[1]) for c in cmds if c.startswith("ctl")]
        for e in events(ls):
            if e["e"] == "ctl": e = dict(e, code=codes.pop(0))
            if e["e"] == "save": sv = e["rc"]; continue
            if e["e"] == "cat":
                if sv is None: e = {"e": "gone"}
                else: e = save_event(sv, e["text"]); sv = None
            if e["e"] == "res": e = res_event(e["text"])
            evs.append({k: v for k, v in e.items() if k not in ("hex", "text")})
    shutil.rmtree(d, ignore_errors=True)
    if crash: evs.append({"e": "crash", "text": crash})
    cfg = sessions[0][0]
    return {"cfg": cfg.rec(), "snr": [micro(x) for x in cfg.snr], "old": {"has": bool(old_rows), "rows": old_rows or []}, "events": evs, "spfs": spfs, "cmds": [s[3] for s in sessions], "scripts": [s[1] for s in sessions]}

SNRPOOL = ["-1", "0", "0.5", "1", "1.25", "1.5", "2", "2.125", "3", "3.3333", "10", "-0.1", "0.1", "0.3", "1e1", "20.000001", "100", "2.50", "+2.75", "12.345678"] + LONGSNR
def res_sessions(rng, big=False):
    k, n = rng.choice(((1, 2), (2, 4), (3, 8), (4, 6))) if rng.random() < .9 else rng.choice(((17, 18), (100, 128), (300, 512)))
    pool = rng.sample(SNRPOOL, rng.choice((3, 6, 12)))
    out = []
    for _ in range(rng.choice((1, 2, 3, 4))):
        snr = [rng.choice(pool) for _ in range(rng.choice((1, 2, 3, 5, 8)))] if rng.random() < 0.3 else rng.sample(pool, min(len(pool), rng.choice((1, 2, 3, 5, 8))))
        cfg = rand_cfg(rng, snr=snr, k=k, n=n, init=None, min_trn=rng.choice((None, 1, 2, 5)), minerr=rng.choice((1, 1, 2, 4)))
        if rng.random() < 0.5: cfg.ml = True
        script = rand_script(rng, k, rng.choice((5, 30, 60)) if k <= 16 else 8, False)
        cmds = []
        for _ in range(rng.choice((1, 2, 5, 10))):
            cmds += ["run"] * rng.choice((0, 1, 1, 2, 5))
            x = rng.random()
            if x < 0.7: cmds += ["save", "cat r.spf"] * rng.choice((1, 1, 2))
            elif x < 0.8: cmds.append("rm r.spf")
            if rng.random() < 0.4: cmds.append("res")
            if rng.random() < 0.4: cmds.append("state")
            if rng.random() < 0.15: cmds.append("ctl %d" % rng.choice((1, 2, 3)))
        if rng.random() < 0.8: cmds += ["runall", "save", "cat r.spf", "res", "state"]
        out.append((cfg, script, -1, cmds + ["close"]))
    return out, (k, n)
def res_check(chk, num, what, big):
    rng = chk.rng
    jobs = []
    for i in range(num):
        ss, nk = res_sessions(rng)
        jobs.append((ss, rand_rows(rng, rng.choice((1, 2, 5, 20)), big or rng.random() < .5) if rng.random() < (0.8 if big else 0.4) else None, nk, rng.randint(1, 10**9)))
    sim_driver()
    recs = parallel(lambda j: res_record(random.Random(j[3]), j[0], j[1], j[2]), jobs)
    for i, r in enumerate(recs): r["id"] = i + 1
    chk.extra["sessions"] = sum(len(j[0]) for j in jobs)
    chk.extra["saves"] = sum(1 for r in recs for e in r["events"] if e["e"] == "save")
    return recs
def res_judge(chk, recs, what):
    bad = chk.validate("TraceRes", recs, what="results file history")
    for b in bad[:6]:
        st = stuck(b, "TraceRes")
        chk.violation("%s: spf=%r stuck at %s" % (what, b["spfs"], json.dumps(st)[:600]), dict(b, stuck=st))

def r01(chk):
    rng = chk.rng
    chk.model("ResFile", "ResFile.cfg")
    recs = res_check(chk, 300 if THOROUGH else 100, "", False)
    # files near the limit of 50 values, new values anywhere
    jobs = []
    for _ in range(40 if THOROUGH else 12):
        old = rand_rows(rng, rng.choice((36, 41, 45, 48, 49, 50)))
        held = [str(D(r[0]) / 1000000) for r in old]
        ss = []
        for _ in range(rng.choice((1, 2, 2))):
            snr = rng.sample(held, rng.choice((0, 1, 2))) + [s for s in rand_snrs(rng, rng.choice((1, 1, 2, 4)), -5, 11)]
            snr = [s for i, s in enumerate(snr) if micro(s) not in [micro(t) for t in snr[:i]]]
            rng.shuffle(snr)
            ss.append((SimCfg(snr, k=2, n=4, ml=rng.random() < 0.5), ["w1", "w2", "c", "m", "w1"], -1, ["run"] * rng.choice((1, 3)) + ["save", "cat r.spf", "runall", "save", "cat r.spf", "close"]))
        jobs.append((ss, old, (2, 4), rng.randint(1, 10**9)))
    recs += parallel(lambda j: res_record(random.Random(j[3]), j[0], j[1], j[2]), jobs)
    for i, r in enumerate(recs): r["id"] = i + 1
    # 50 values is the limit of the file
    for _ in range(3):
        cfg = SimCfg(rand_snrs(rng, 30), k=2, n=4)
        cfg2 = SimCfg(rand_snrs(rng, 30), k=2, n=4)
        ss = [(c, ["w1"], -1, ["run"] * 10 + ["save", "cat r.spf", "runall", "save", "cat r.spf", "close"]) for c in (cfg, cfg2, cfg)]
        recs.append(dict(res_record(rng, ss, None, (2, 4)), id=len(recs) + 1))
    res_judge(chk, recs, "the results file does not accumulate every point once")

def r05(chk):
    rng = chk.rng
    chk.model("ResFile", "ResFile.cfg")
    recs = res_check(chk, 300 if THOROUGH else 100, "", True)
    res_judge(chk, recs, "reported rates or counters do not agree with the trials")

def mex_driver():
    exe = os.path.join(WORK, "mexdrv")
    with _LOCK:
        if not os.path.exists(exe):
            rc, out = sh(["gcc", "-std=gnu11"] + flags("asan") + ["-I", os.path.join(VERIF, "harness", "mex"), "-I", REPO, "-o", exe, os.path.join(VERIF, "harness", "mex_driver.c"),
                          REPO + "/Octave/loadsrf.c", REPO + "/Octave/ui_octave_txt.c", REPO + "/common/spf_par.c", "-lm"], env=env())
            if rc: raise Infra("build of the loader failed:\n" + out[-3000:])
    return exe
def hexnum(h):
    neg = h.startswith("-")
    try: num, den = abs(float.fromhex(h)).as_integer_ratio()
    except (ValueError, OverflowError): return {"neg": True, "m": [1], "e": 0}    # inf, nan
    return {"neg": neg, "m": bigdigits(num), "e": den.bit_length() - 1}
def load_files(texts):
    """texts: file contents, None (no such file) or "-" (no argument)."""
    d = tmpname(".d"); os.mkdir(d)
    args = []
    for i, t in enumerate(texts):
        if t == "-": args.append("-"); continue
        args.append("f%d.srf" % i)
        if t is not None: open(os.path.join(d, args[-1]), "w").write(t)
    rc, out = run_proc([mex_driver(), "ans"] + args, cwd=d, timeout=60)
    ls = open(os.path.join(d, "ans")).read().split("\n") if os.path.exists(os.path.join(d, "ans")) else []
    shutil.rmtree(d, ignore_errors=True)
    res = []
    for l in ls:
        w = l.split(" ")
        if w[0] == "file": res.append({"error": False, "out": {}})
        elif w[0] in ("err", "none"): res[-1]["error"] = True
        elif w[0] == "field": res[-1]["out"][w[1]] = [hexnum(h) for h in w[4:]]
    while len(res) < len(texts): res.append({"error": False, "out": {}, "note": "%s %s" % (rc, crash_text(out))})
    if rc: res[-1]["out"] = {}; res[-1]["error"] = False; res[-1]["note"] = "%s %s" % (rc, crash_text(out))
    return res
def load_record(text, r):
    """The facts of a file text, read independently of the code."""
    d = parse_res(text) if text not in (None, "-") else {}
    lists = {k: d[k] if isinstance(d.get(k), list) else [] for k in LISTS}
    num = lambda t: int(t) if re.fullmatch(r"\d+", str(t)) and int(t) < 2**31 else 0
    def sn(t):
        try: p, e = decparts(t)
        except Exception: return [False, [], 0]
        return [p < 0, bigdigits(abs(p)), e] if e < 40 and abs(p) < 10**60 else [False, [], 0]
    out = {k: v for k, v in r["out"].items()}
    return {"there": text not in (None, "-") and "?" not in [x for v in d.values() if isinstance(v, list) for x in v], "n": num(d.get("code_n")), "k": num(d.get("code_k")),
            "lens": {k: len(v) for k, v in lists.items()}, "snr": [sn(t) for t in lists["SNR"]], "cols": {LISTS[k]: [num(t) for t in v] for k, v in lists.items() if k != "SNR"},
            "error": r["error"], "out": out, "text": (text or "")[:1500], "note": r.get("note", "")}
def r06(chk):
    rng = chk.rng
    texts = []
    # files of the simulator itself
    jobs = []
    for i in range(60 if THOROUGH else 25):
        ss, nk = res_sessions(rng)
        old = rand_rows(rng, rng.choice((1, 5, 20)), rng.random() < 0.5) if rng.random() < 0.5 else None
        jobs.append((ss, old, nk, rng.randint(1, 10**9)))
    jobs.append(([(SimCfg(rand_snrs(rng, 50), k=3, n=8), ["m"] * 400 + ["w1"], -1, ["runall", "save", "cat r.spf", "close"])], None, (3, 8), 5))
    jobs.append(([(SimCfg(["1", "2"], k=3, n=8), ["w1"], -1, ["save", "cat r.spf", "runall", "save", "cat r.spf", "close"])], None, (3, 8), 6))
    def run(j):
        ss, old, nk, seed = j
        r = random.Random(seed); d = tmpname(".d"); os.mkdir(d); out = []
        if old: open(os.path.join(d, "r.spf"), "w").write(res_text(r, old, nk[1], nk[0]))
        for cfg, script, ret, cmds in ss:
            open(os.path.join(d, "p.spf"), "w").write(cfg.text(r))
            open(os.path.join(d, "cmds"), "w").write("\n".join(["out " + " ".join(script), "quiet", "init p.spf %d 1" % ret] + [c for c in cmds if not c.startswith("rm")]) + "\n")
            run_proc([sim_driver(), "cmds", "ans"], cwd=d, timeout=100)
            for l in open(os.path.join(d, "ans")).read().split("\n"):
                if l.startswith("cat "): out.append(l[4:].replace("|", "\n"))
        shutil.rmtree(d, ignore_errors=True)
        return out
    sim_driver()
    for t in parallel(run, jobs): texts += t
    own = len(texts)
    # large counters, codes, single points; hand-made inconsistencies
    for i in range(400 if THOROUGH else 150):
        rows = rand_rows(rng, rng.choice((1, 1, 2, 5, 50)), True)
        if rng.random() < 0.3: rows[0][1:] = [2147483647, 2147483647, 2147483646, 2147483647, 2147483647, 2147483645]
        t = res_text(rng, rows, *rng.choice(((8, 3), (1024, 1000), (1 << 20, 1000000), (2, 1))))
        ls = t.split("\n"); gi = [j for j, l in enumerate(ls) if l.split(" ")[0] in LISTS]
        kind = rng.choice((0, 0, 1, 2, 3, 4, 5, 6, 7, 8))
        j = rng.choice([g for g in gi if not ls[g].startswith("erasures")])
        if kind == 1: ls[j] = re.sub(r" \S+ }", " }", ls[j])
        elif kind == 2: ls[j] = ls[j].replace("{ ", "{ 1 ")
        elif kind == 3: del ls[j]
        elif kind == 4: ls[j] = ls[j].replace(" }", ""); ls = ls[:j + 1]
        elif kind == 5: ls = [l for l in ls if not l.startswith(rng.choice(("code_n", "code_k")))]
        elif kind == 6: rng.shuffle(ls); ls = [l for l in ls if not l.startswith("%")]
        elif kind == 7: ls = res_text(rng, rand_rows(rng, 51)).split("\n")
        elif kind == 8: j = [g for g in gi if ls[g].startswith("erasures")][0]; ls[j] = ls[j].replace("{ ", "{ 1 ")
        texts.append("\n".join(ls))
    texts += [None, "-"]
    recs = []
    for ts in parallel(load_files, chunks(texts, 16)): recs += ts
    recs = [load_record(t, r) for t, r in zip(texts, recs)]
    for i, r in enumerate(recs): r["id"] = i + 1
    chk.extra["files_of_the_simulator"], chk.extra["files"] = own, len(texts)
    bad = chk.validate("TraceLoad", recs, what="loader")
    for b in bad[:6]: chk.violation("loadsrf returns something else than the file says: %s" % json.dumps({k: v for k, v in b.items() if k != "out"})[:700], b)

CHECKS = {"R06": r06, "R01": r01, "R05": r05, "R02": r02, "R03": r03, "R04": r04}
