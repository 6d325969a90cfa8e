"""Checks of the simulator (S*) with the scripted codec."""
import decimal
from common import *
from codes import *
D = decimal.Decimal

NOVAL = -2147483647
def micro(s):
    """A decimal string in millionths; NOVAL if it is not one.  The long values are known by the nearest millionth."""
    try: v = D(s) * 1000000
    except decimal.InvalidOperation: return NOVAL
    if v != int(v): return next((k for l, k in LONG.items() if abs(v / 1000000 - D(l)) < D("1e-9")), NOVAL)
    return int(v) if abs(v) < 2**31 else NOVAL
# Values that need 16 or 17 digits, as computed lists have them.
LONGSNR = ["0.7200000000000001", "1.4300000000000002", "-0.36000000000000004", "3.141592653589793", "2.2300000000000004", "5.551115123125783"]
LONG = {float(s): round(float(s) * 1000000) for s in LONGSNR}

LISTS = {"SNR": "snr", "tr_num": "trn", "en_bit": "ebit", "en_bl": "ebl", "erasures_num": "er", "ml_tr_num": "trnml", "enml_bl": "eml"}
def parse_res(text):
    """Results file -> {key: [tokens]}; comments dropped.  Only a reader, judges nothing."""
    toks = re.sub(r"%[^\n]*", "", text).replace("{", " { ").replace("}", " } ").replace(",", " ").split()
    d, i = {}, 0
    while i < len(toks):
        k = toks[i]; i += 1
        if i < len(toks) and toks[i] == "{":
            j = i + 1
            while j < len(toks) and toks[j] != "}": j += 1
            d[k] = toks[i + 1:j] if j < len(toks) else ["?"]; i = j + 1
        else: d[k] = toks[i] if i < len(toks) else None; i += 1
    return d
def points(text):
    d = parse_res(text)
    try:
        cols = [[micro(x) for x in d["SNR"]]] + [[int(x) for x in d[k]] for k in list(LISTS)[1:]]
    except (KeyError, ValueError, TypeError): return [[-1]]
    if len({len(c) for c in cols}) != 1: return [[-2]]
    return [list(r) for r in zip(*cols)]

class SimCfg:
    def __init__(self, snr, init=None, min_trn=None, minerr=None, ml=None, hd=None, rnd=None, k=3, n=8, fixedR=None, extra=()):
        self.snr, self.init, self.min_trn, self.minerr, self.ml, self.hd, self.rnd, self.k, self.n, self.fixedR, self.extra = snr, init, min_trn, minerr, ml, hd, rnd, k, n, fixedR, extra
    def text(self, rng, res="r.spf"):
        ps = ["res_file " + res, "mock_k %d" % self.k, "mock_n %d" % self.n, "mock_zero %d" % (not self.rnd)]
        if self.init: ps.append("SNR_val_trn { " + " ".join("%s %d" % x for x in zip(self.snr, self.init)) + " }")
        else: ps.append("EbNo_values { " + " ".join(self.snr) + " }")
        if self.min_trn is not None: ps.append("min_trials_per_snr %d" % self.min_trn)
        if self.minerr is not None: ps.append("min_errors_per_snr %d" % self.minerr)
        for key, v in (("ml_lb", self.ml), ("ml_lb_hard", self.hd), ("random_codeword", self.rnd)):
            if v is not None: ps.append("%s %s" % (key, "on" if v else "off"))
        if self.fixedR: ps.append("fixed_R " + self.fixedR)
        ps += list(self.extra)
        rng.shuffle(ps)
        return "\n".join(ps) + "\n"
    def rec(self):
        mt = max(self.min_trn or 1, 1) if (self.min_trn or 0) > 0 else 1
        me = self.minerr if (self.minerr or 0) > 0 else 1
        return {"init": [i if i > 0 else mt for i in self.init] if self.init else [mt] * len(self.snr), "minerr": me,
                "ml": bool(self.ml or self.hd), "hd": bool(self.hd), "k": self.k, "n": self.n, "rnd": bool(self.rnd)}

def rand_snrs(rng, num, lo=-6, hi=10):
    out = []
    while len(out) < num:
        v = rng.choice(("%d", "%.1f", "%.2f", "%.3f", "%.2f"))
        s = v % (rng.randint(lo, hi) if v == "%d" else rng.uniform(lo, hi))
        if micro(s) not in [micro(o) for o in out]: out.append(s)
    return out
def rand_cfg(rng, **kw):
    num = rng.choice((1, 1, 2, 2, 3, 4, 6))
    c = dict(snr=rand_snrs(rng, num), k=rng.randint(1, 4), n=rng.choice((2, 4, 6, 8)))
    if rng.random() < 0.5: c["init"] = [rng.choice((0, 1, 2, 3, 5, 10, 20, 40, -3)) for _ in range(num)]
    if rng.random() < 0.7: c["min_trn"] = rng.choice((0, 1, 2, 3, 7, 20, -1))
    if rng.random() < 0.8: c["minerr"] = rng.choice((0, 1, 2, 3, 5, 10, 22, 25, 30, -2))
    for f in ("ml", "hd", "rnd"):
        if rng.random() < 0.7: c[f] = rng.random() < (0.3 if f == "hd" else 0.6)
    c["k"] = min(c["k"], c["n"])
    c.update(kw)
    return SimCfg(**c)

def rand_script(rng, k, length, times, fail=False):
    mode = rng.choice(("mix", "rare", "often", "ml", "eras"))
    out = []
    for i in range(length):
        x = rng.random()
        w = "%x" % (rng.randint(1, (1 << k) - 1) if k <= 16 or rng.random() < .5 else rng.choice((1 << rng.randrange(k), (1 << k) - 1, (1 << k) - 1 - (1 << rng.randrange(k)), sum(1 << i for i in rng.sample(range(k), 2)))))
        if mode == "mix": o = rng.choice(("c", "w" + w, "e" + w, "e0", "m", "h"))
        elif mode == "rare": o = "w" + w if x < 0.06 else "e0" if x < 0.1 else "c"
        elif mode == "often": o = "w" + w if x < 0.8 else "c"
        elif mode == "ml": o = "m" if x < 0.6 else "h" if x < 0.8 else "w" + w
        else: o = "e" + w if x < 0.4 else "e0" if x < 0.7 else "c" if x < 0.8 else "w" + w
        if times and rng.random() < 0.3: o += "+%d" % rng.randint(1, 6)
        out.append(o)
    if fail: out[-1] = "x"
    return out + ["w1+1"] if times else out + ["w1"]

def dec2(t):
    """A printed decimal -> [M, e]: M * 10^-e with e the last printed place; [-1, 0] if it is none."""
    m = re.fullmatch(r"(-?)(\d+)(?:\.(\d*))?(?:[eE]([+-]?\d+))?", t)
    if not m: return [-1, 0]
    M = int(m[1] + m[2] + (m[3] or "")); e = len(m[3] or "") - int(m[4] or 0)
    return [M, e] if abs(M) < 2**31 else [-1, 0]
def floats(ws, b=20): return [round(float.fromhex(w) * 2**b) for w in ws]
def run_sim(spf, cmds, codec=None, timeout=60, flavour="asan", nr=1, files=()):
    """Runs the driver in a directory of its own; returns (answer lines, crash text, directory)."""
    exe = sim_driver(codec, flavour)
    d = tmpname(".d"); os.mkdir(d)
    open(os.path.join(d, "p.spf"), "w").write(spf)
    for name, text in files: open(os.path.join(d, name), "w").write(text)
    open(os.path.join(d, "cmds"), "w").write("\n".join(cmds) + "\n")
    rc, out = run_proc([exe, "cmds", "ans"], cwd=d, timeout=timeout)
    ls = open(os.path.join(d, "ans")).read().split("\n") if os.path.exists(os.path.join(d, "ans")) else []
    ok = rc == 0 and "end" in ls
    return [l for l in ls if l], None if ok else "%s: %s" % (rc, crash_text(out)), d

def events(lines):
    """Answer lines -> events of TraceSim (and the sigmas announced, received vectors as floats)."""
    ev, encs = [], []
    for l in lines:
        w = l.split(" ")
        if w[0] == "call": ev.append({"e": "run"})
        elif w[0] == "csnrn": ev.append({"e": "cs", "v": int(w[1])})
        elif w[0] == "sg": ev.append({"e": "sg", "hex": w[1]})
        elif w[0] == "enc": encs.append(blist(w[1]))
        elif w[0] == "dec":
            ev.append({"e": "dec", "encs": encs, "rc": int(w[1]), "xd": blist(w[2]), "y": [max(-2**27, min(2**27, v)) for v in floats(w[3:], 20 if len(w[2]) <= 16 else 13)], "hex": w[3:]}); encs = []
        elif w[0] == "run": ev.append({"e": "ret", "rc": int(w[1])})
        elif w[0] == "ctl": ev.append({"e": "ctl"})
        elif w[0] == "save": ev.append({"e": "save", "rc": int(w[1])})
        elif w[0] in ("cat", "nofile"): ev.append({"e": "cat", "text": l[4:].replace("|", "\n") if w[0] == "cat" else None})
        elif w[0] == "state":
            m = re.fullmatch(r"state SNR:\s*(-?[\d.]+) \((\d+) / (\d+)\), trn: (-?\d+) / (-?\d+), en: (-?\d+)(?:, ML en: (-?\d+))?\.\s*", l)
            g = m.groups() if m else ("0", "-9", "-9", "-9", "-9", "-9", None)
            ev.append({"e": "state", "psnr": dec2(g[0]), "snr": round(D(g[0]) * 100), "i": int(g[1]), "n": int(g[2]), "trn": int(g[3]), "req": int(g[4]), "en": int(g[5]), "ml": -1 if g[6] is None else int(g[6]), "text": l})
        elif w[0] == "gone": ev.append({"e": "cat", "text": None})
        elif w[0] == "res": ev.append({"e": "res", "text": l[4:].replace("|", "\n")})
    return ev

MODEL_SIM = "SPECIFICATION Spec\nCONSTANTS EstAt = 1 Cap = 12 MaxTrn = %d Controls = TRUE Long = FALSE\nINVARIANTS Sane Left AtLeast DoneOk Later\nPROPERTIES NoExtra Grows CurMono\nCHECK_DEADLOCK FALSE\n"
MODEL_SIM_LONG = "SPECIFICATION Spec\nCONSTANTS EstAt = 1 Cap = 30 MaxTrn = %d Controls = %s Long = TRUE\nINVARIANTS Sane Left AtLeast DoneOk Later\nPROPERTIES NoExtra Grows CurMono\nCHECK_DEADLOCK FALSE\n"
def sim_model(chk):
    chk.model("MCSimRun", text=MODEL_SIM % (5 if THOROUGH else 2))
    chk.model("MCSimRun", text=MODEL_SIM_LONG % ((16, "TRUE") if THOROUGH else (11, "FALSE")))
    chk.model("MCSimRun", "MCSimRunLive.cfg")

def sim_trace(rng, cfg, script, ret_int, cmds):
    spf = cfg.text(rng)
    lines, crash, d = run_sim(spf, ["out " + " ".join(script), "init p.spf %d 1" % ret_int] + cmds)
    shutil.rmtree(d, ignore_errors=True)
    r = sim_record(lines, crash, cmds)
    return {"cfg": cfg.rec(), "snr": [micro(s) for s in cfg.snr], "events": r["events"], "spf": spf, "script": script, "ret": ret_int, "cmds": cmds}

def sim_record(lines, crash, cmds):
    codes = [int(c.split()[1]) for c in cmds if c.startswith("ctl")]
    ev, res, sv = events(lines), [], None
    for e in ev:
        if e["e"] == "ctl": e = dict(e, code=codes.pop(0))
        if e["e"] == "save": sv = e["rc"]; continue
        if e["e"] == "cat": e = {"e": "file", "rc": sv if sv is not None else -5, "points": points(e["text"]) if e["text"] is not None else [[-3]]}
        if e["e"] == "res": continue
        res.append({k: v for k, v in e.items() if k not in ("hex", "text")})
    for i, e in enumerate(res):   # nothing is promised after a failed run
        if e["e"] == "ret" and e["rc"] < 0: res = res[:i + 1]; break
    if crash or "init 0" not in lines: res.append({"e": "crash", "text": str(crash)})
    return {"events": res}

def rand_cmds(rng, ctls=True, saves=True, dense=False):
    cmds = []
    if rng.random() < 0.3: cmds.append("state")
    for _ in range(rng.choice((0, 3, 10, 40))):
        cmds.append("run")
        for _ in range(rng.choice((0, 1, 2))):
            x = rng.random()
            if x < 0.5 or dense: cmds.append("state")
            elif x < 0.65 and saves: cmds += ["save", "cat r.spf"]
            elif x < 0.75: cmds.append("res")
            elif ctls and rng.random() < 0.4: cmds += ["ctl %d" % rng.choice((1, 2, 3)), "state"]
    cmds += ["runall", "state", "save", "cat r.spf"]
    if rng.random() < 0.3: cmds += ["run", "state", "ctl %d" % rng.choice((1, 2, 3)), "run", "save", "cat r.spf"]
    return cmds + ["close"]

def sim_check(chk, jobs, what):
    """jobs: (cfg, script, ret_int, cmds)"""
    rng = chk.rng
    recs = parallel(lambda j: sim_trace(random.Random(SEED), *j), jobs)
    for i, r in enumerate(recs): r["id"] = i + 1
    bad = chk.validate("TraceSim", recs, what="simulation")
    for b in bad[:6]:
        chk.violation("%s: spf=%r ret_int=%d script=%s cmds=%s" % (what, b["spf"], b["ret"], " ".join(b["script"])[:300], ";".join(b["cmds"])[:200]), dict(b, stuck=stuck(b)))
    chk.extra["trials"] = chk.extra.get("trials", 0) + sum(1 for r in recs for e in r["events"] if e["e"] == "dec")
    return recs

def stuck(rec, module="TraceSim"):
    """How far the specification follows a rejected record."""
    f = tmpname(".ndjson"); open(f, "w").write(json.dumps(rec) + "\n")
    r = tlc(module, None, {"TRACE": f}, args=["-dump", f + ".dump"])
    pos = [int(x) for x in re.findall(r"/\\ pos = (\d+)", open(f + ".dump").read())] if os.path.exists(f + ".dump") else []
    p = max(pos) if pos else 0
    return {"event_index": p, "event": rec["events"][p - 1] if 0 < p <= len(rec["events"]) else None}

def s01(chk):
    rng = chk.rng
    sim_model(chk)
    jobs = []
    for i in range(260 if THOROUGH else 90):
        cfg = rand_cfg(rng)
        times = rng.random() < 0.5
        script = rand_script(rng, cfg.k, rng.choice((5, 30, 120, 300)), times, fail=rng.random() < 0.08)
        jobs.append((cfg, script, rng.choice((0, 3, 10)) if times else rng.choice((-1, -1, 10)), rand_cmds(rng, saves=False, dense=True)))
    # requirements near the limits of the counters
    for req in (1999999999, 2000000000, 1500000000, 2147483647):
        cfg = SimCfg(["1", "2"], init=[req, 1], minerr=2, k=2, n=4)
        jobs.append((cfg, ["w1"], -1, ["run", "state", "ctl 1", "state", "run", "state", "ctl 2", "state", "run", "ctl 1", "run", "state", "ctl 1", "state", "run", "ctl 3", "run", "runall", "state", "close"]))
    for j in jobs:
        if "x" in j[1]: i = j[3].index("runall"); j[3][i + 1:] = ["close"]
    sim_check(chk, jobs, "trials run or point ends differ from the stopping rule")

def s02(chk):
    rng = chk.rng
    sim_model(chk)
    jobs = []
    for i in range(260 if THOROUGH else 90):
        cfg = rand_cfg(rng)
        if rng.random() < 0.5: cfg.ml = True
        if i % 6 == 0:   # long messages
            cfg.k = rng.choice((17, 40, 64, 65, 130, 255, 256, 257, 300)); cfg.n = (cfg.k + rng.choice((0, 1, cfg.k // 3, cfg.k)) + 1) & ~1   # (code lengths are even)
            cfg.snr = [v for v in cfg.snr if D(v) > -5] or ["1"]; cfg.init = None; cfg.min_trn = rng.choice((1, 2, 4)); cfg.minerr = rng.choice((1, 2, 3))
        script = rand_script(rng, cfg.k, rng.choice((5, 30, 120, 300)) if cfg.k <= 16 else 20, True, fail=rng.random() < 0.08)
        jobs.append((cfg, script, rng.choice((0, 3, 10)), rand_cmds(rng, ctls=False)))
    for j in jobs:
        if "x" in j[1]: i = j[3].index("runall"); j[3][i + 1:] = ["close"]
    sim_check(chk, jobs, "counters do not account for every trial once")

def final(lines, crash):
    """How a run of the driver ended: return code of the last run and of the save, points of the file."""
    ev = events(lines)
    rcs = [e["rc"] for e in ev if e["e"] in ("ret",)]
    sv = [e["rc"] for e in ev if e["e"] == "save"]
    cat = [e for e in ev if e["e"] == "cat"]
    pts = points(cat[-1]["text"]) if cat and cat[-1]["text"] is not None else [[-3]]
    rc = -77 if crash or not rcs or not sv else (rcs[-1] if rcs[-1] else sv[-1])
    return {"rc": rc, "points": pts, "note": crash or ""}

REAL = [("dtrm0", "RM_m 3\nRM_r 1"), ("dtrm0", "RM_m 4\nRM_r 2"), ("dtrm1", "RM_m 4\nRM_r 2"), ("dtrm_glp", "RM_m 4\nRM_r 2\nborder_node_mask 111111\nborder_node_lsize 3"),
        ("dtrm_glp", "RM_m 3\nRM_r 1\nborder_node_mask 111\nborder_node_lsize 4\npermutations {\n 0 1 2\n 2 1 0\n}"),
        ("ca_polar_scl", "c_m 4\ninfo_bits_mask 0000000100110111\nlist_size 4"), ("ca_polar_scl", "c_m 3\ninfo_bits_mask 00110111\nca_polar_crc 11\nlist_size 4")]
def s03(chk):
    rng = chk.rng
    chk.model("Slice", "Slice.cfg")
    jobs = []
    for i in range(80 if THOROUGH else 30):
        if i % 3:
            cfg = rand_cfg(rng); cfg.rnd = rng.random() < 0.7
            if rng.random() < 0.6: cfg.ml = True
            cfg.minerr = rng.choice((1, 3, 8, 25))
            jobs.append((None, cfg.text(rng), ["m"] * rng.choice((100, 600)) + ["w1"] if rng.random() < 0.7 else rand_script(rng, cfg.k, 60, True)))
        else:
            codec, ps = REAL[(i // 3) % len(REAL)]
            cfg = SimCfg(rand_snrs(rng, rng.randint(1, 3), -2, 2), min_trn=rng.choice((20, 60)), minerr=rng.choice((3, 8)), ml=rng.random() < 0.6, hd=rng.random() < 0.2, rnd=rng.random() < 0.6)
            jobs.append((codec, cfg.text(rng) + ps + "\n", None))
    if True:
        def variants():
            v = [(10, ["runall", "save", "cat r.spf", "close"])]
            v.append((-1, ["runall", "save", "cat r.spf", "close"]))
            c = []
            for _ in range(rng.choice((3, 8, 20))):
                c += ["run"] + rng.sample(["state", "res", "save", "clock %d" % rng.randint(10, 10**9), "save", "state"], rng.randint(0, 4))
            v.append((-1, c + ["runall", "save", "cat r.spf", "close"]))
            v.append((rng.choice((0, 2, 5)), ["clock %d" % rng.randint(1, 2 * 10**9)] + ["run", "save", "res"] * rng.choice((1, 4)) + ["runall", "state", "save", "save", "cat r.spf", "close"]))
            v.append((1000, ["runall", "state", "run", "save", "run", "save", "cat r.spf", "close"]))
            return v
        def one(j):
            codec, spf, script = j[0]
            ret, cmds = j[1]
            # "clock" before init too: the time of the start must not matter
            lines, crash, d = run_sim(spf, (["out " + " ".join(script)] if script else []) + ["quiet", "clock %d" % (1000 + 77 * ret), "init p.spf %d 1" % ret] + cmds, codec)
            shutil.rmtree(d, ignore_errors=True)
            return final(lines, crash)
        recs = []
        for c in sorted({j[0] for j in jobs}, key=str): sim_driver(c)
        flat = [(j, v) for j in jobs for v in variants()]
        res = parallel(one, flat)
        n = len(flat) // len(jobs)
        for i, j in enumerate(jobs):
            recs.append({"id": i + 1, "codec": j[0] or "mock", "spf": j[1], "script": j[2] or [], "variants": [v for _, v in flat[i * n:(i + 1) * n]], "finals": res[i * n:(i + 1) * n]})
    bad = chk.validate("TraceSlice", recs, what="slicing")
    for b in bad[:6]:
        chk.violation("results depend on how the run is sliced: codec=%s spf=%r finals=%s" % (b["codec"], b["spf"], json.dumps(b["finals"])[:600]), b)
    chk.extra["runs"] = len(flat)

def bigdigits(v):
    out = []
    while v: out.append(v & 32767); v >>= 15
    return out
def decparts(s):
    """Decimal string -> (integer, number of decimals)"""
    d = D(s).normalize()
    e = max(0, -d.as_tuple().exponent)
    return int(d * 10**e), e

def s04(chk):
    rng = chk.rng
    recs, viol = [], []
    sim_driver()
    def mock_word(x, n, k): return [1 if sum(b for i, b in enumerate(x) if ((j % ((1 << k) - 1)) + 1) >> i & 1) & 1 else -1 for j in range(n)]
    # sigma of every point, for many rates and SNR values
    jobs = []
    for i in range(60 if THOROUGH else 24):
        k, n = rng.choice(((1, 2), (3, 8), (4, 8), (5, 16), (7, 64), (2, 4), (1, 8), (100, 128), (300, 512), (11, 2048), (2036, 2048)))
        fx = rng.choice((None, None, "0.5", "1", "0.123", "0.75", "2", "0.9999"))
        jobs.append(SimCfg(rand_snrs(rng, rng.randint(1, 12), -20, 30), k=k, n=n, rnd=rng.random() < 0.5, fixedR=fx, minerr=1, min_trn=rng.choice((1, 2))))
    def sig(cfg):
        lines, crash, d = run_sim(cfg.text(random.Random(SEED)), ["out w1", "init p.spf %d 1" % rng.choice((-1, 10)), "run", "run", "runall", "close"])
        shutil.rmtree(d, ignore_errors=True)
        return lines, crash
    for cfg, (lines, crash) in zip(jobs, parallel(sig, jobs)):
        cs, seen = None, {}
        for e in events(lines):
            if e["e"] == "cs": cs = e["v"]
            if e["e"] == "sg" and cs is not None: seen.setdefault(cs, set()).add(e["hex"])
        for i, s in enumerate(cfg.snr):
            rn, rd = (cfg.k, cfg.n) if not cfg.fixedR else (lambda p: (p[0], 10**p[1]))(decparts(cfg.fixedR))
            p, dd = decparts(s)
            for h in seen.get(i, {"0x0p+0"}):
                num, den = float.fromhex(h).as_integer_ratio()
                recs.append({"t": "sigma", "snr": s, "hex": h, "p": p, "d": dd, "rn": rn, "rd": rd, "m": bigdigits(num), "e": den.bit_length() - 1, "spf": cfg.text(random.Random(SEED)), "note": crash or ""})
    chk.extra["sigmas"] = len(recs)
    # the noise and the message bits
    jobs = []
    for i in range(12 if THOROUGH else 5):
        k, n = ((3, 8), (1, 2), (4, 16), (2, 4), (4, 6))[i % 5]
        total = 40000 if THOROUGH else 12000
        pts = rng.choice((1, 3))
        cfg = SimCfg(rand_snrs(rng, pts, -4, 8), k=k, n=n, rnd=i % 5 != 4, min_trn=total // n // pts, minerr=1, fixedR=rng.choice((None, "0.7")))
        jobs.append((cfg, rng.choice((1, 1, 0)) if i else 1, rng.randint(1, 2 * 10**9)))
    def noise(j):
        cfg, nr, clock = j
        lines, crash, d = run_sim(cfg.text(random.Random(SEED)), ["out w1", "clock %d" % clock, "init p.spf 1000 %d" % nr, "runall", "close"])
        shutil.rmtree(d, ignore_errors=True)
        sg, s, y, b = 1.0, [], [], []
        for e in events(lines):
            if e["e"] == "sg": sg = float.fromhex(e["hex"])
            if e["e"] == "dec":
                x = e["encs"][-1] if cfg.rnd and e["encs"] else [0] * cfg.k
                b += x
                w = mock_word(x, cfg.n, cfg.k)
                # in units of the point's sigma, so that all points count alike
                for c, h in zip(w, e["hex"]):
                    z = (float.fromhex(h) - c) / sg
                    s.append(c * 1048576); y.append(max(-2**30, min(2**30, c * 1048576 + round(z * 1048576))))
        m = len(y) - len(y) % cfg.n
        out = [{"t": "noise", "sg": 1048576, "n": cfg.n, "s": s[:m], "y": y[:m], "spf": cfg.text(random.Random(SEED)), "nr": nr, "clock": clock, "note": crash or ""}]
        if cfg.rnd: out.append({"t": "bits", "k": cfg.k, "b": b, "spf": out[0]["spf"], "nr": nr, "clock": clock, "note": crash or ""})
        return out
    for o in parallel(noise, jobs): recs += o
    # many samples
    sim_driver(flavour="plain")
    jobs = []
    for i in range(16 if THOROUGH else 4):
        u = rng.choice((200, 300, 400) if THOROUGH else (160,))
        pts = (1, 2, 5)[i % 3]
        jobs.append((SimCfg(rand_snrs(rng, pts, -4, 8), k=3, n=1000, rnd=i % 2 == 0, min_trn=u * 100 // pts, minerr=1), u, i % 4 != 3, rng.randint(1, 2 * 10**9)))
    def many(j):
        cfg, u, nr, clock = j
        lines, crash, d = run_sim(cfg.text(random.Random(SEED)), ["out w1", "clock %d" % clock, "count", "init p.spf 100000 %d" % nr, "runall", "hist", "close"], flavour="plain", timeout=600)
        shutil.rmtree(d, ignore_errors=True)
        h = [[int(x) for x in l.split()[1:]] for l in lines if l.startswith("hist ")]
        h = h[0] if h else [0] * 77
        big = 2 * 10**9
        h = [max(-big, min(big, x)) for x in h]
        return {"t": "count", "u": h[0] // 100000 if h[0] % 100000 == 0 and h[0] <= 10**8 else 0, "s1": h[1], "s2": h[2], "h": [h[3:24], h[24:45]], "c1": h[45::2], "c2": h[46::2], "spf": cfg.text(random.Random(SEED)), "nr": nr, "clock": clock, "note": crash or ""}
    recs += parallel(many, jobs)
    chk.extra["counted_samples"] = sum(r["u"] for r in recs if r["t"] == "count") * 100000
    for i, r in enumerate(recs): r["id"] = i + 1
    bad = chk.validate("TraceAwgn", recs, what="channel")
    chk.extra["noise_samples"] = sum(len(r["y"]) for r in recs if r["t"] == "noise")
    for b in bad[:6]:
        chk.violation("the channel is not BPSK/AWGN at the configured Eb/N0: %s" % json.dumps({k: v for k, v in b.items() if k not in ("s", "y", "b", "m")}), shorten(b, 3000))

CHECKS = {"S01": s01, "S02": s02, "S03": s03, "S04": s04}
