"""Checks of the meaning of parameters and of the executables (P02-P04)."""
from common import *
from codes import *
from sim import *
from spf import rand_layout, rand_word, codes
import dec

SIMKEYS = ["res_file", "SNR_val_trn", "EbNo_values", "min_trials_per_snr", "min_errors_per_snr", "ml_lb", "ml_lb_hard", "random_codeword", "fixed_R"]
CODECKEYS = {"dtrm0": ["RM_m", "RM_r"], "dtrm1": ["RM_m", "RM_r"],
             "dtrm_glp": ["RM_m", "RM_r", "border_node_mask", "border_node_lsize", "permutations", "use_variable_list", "distance_threshold"],
             "ca_polar_scl": ["c_m", "info_bits_mask", "ca_polar_crc", "list_size", "permutations"], "mock": ["mock_n", "mock_k", "mock_zero", "mock_fail"]}
ALLKEYS = SIMKEYS + sorted({k for v in CODECKEYS.values() for k in v})
OFFS = ["off", "ON", "On", "1", "true", "yes", "o", "onn", "on1", "no", "0", "oN", "onoff", "-on"]

def spell(rng, v):
    """Ways to write an integer."""
    if v < 0: return rng.choice(("%d" % v, "-0%d" % -v))
    return rng.choice(("%d" % v, "%d" % v, "+%d" % v, "0%d" % v, "00%d" % v, "+0%d" % v))
def spelldec(rng, s):
    neg, t = s.startswith("-"), s.lstrip("-+")
    if "." not in t: t = rng.choice((t, t, t + ".", t + ".0", t + ".000"))
    elif len(t.split(".")[1]) < 5: t = rng.choice((t, t, t + "0"))
    if t.startswith("0.") and len(t) > 2 and rng.random() < 0.5: t = t[1:]
    elif rng.random() < 0.2: t = "0" + t
    return ("-" if neg else rng.choice(("", "", "+"))) + t

def unknown(rng, known):
    """A key that means nothing, with a value or a group."""
    while True:
        x, b = rng.random(), rng.choice(known)
        if x < 0.15: k = b + rng.choice(("_", "2", "s", ".", "_old", "x"))
        elif x < 0.25: k = rng.choice(("_", "x", "no_", "the")) + b
        elif x < 0.35: k = b[:-1]
        elif x < 0.45: k = b[1:]
        elif x < 0.55: k = b.swapcase()
        elif x < 0.75: k = rng.choice(ALLKEYS)
        elif x < 0.8: k = rng.choice(("on", "off", "SNR", "tr_num", "7", "-1", "permutation", "distance"))
        else: k = rand_word(rng)
        if k and k not in known and not re.search(r"[{}%]", k) and k != "include" and "mock" not in k: break
    def word():
        x = rng.random()
        if x < 0.3: w = rng.choice([k for k in known if "mock" not in k])
        elif x < 0.5: w = rng.choice(("on", "off", "0", "1", "-5", "3.5", "1e9", "99999", "x"))
        else:
            w = rand_word(rng)
            while re.search(r"[{}%]", w) or w == "include": w = rand_word(rng)
        return w
    return (k, word() if rng.random() < 0.55 else [word() for _ in range(rng.choice((0, 1, 1, 2, 4, 9, 60)))])

def arrange(rng, pairs, known, order=(), nunk=None, shuffle=True):
    """Pairs in some order with unknown ones strewn in; order: (a, b) pairs of keys, a first."""
    ps = list(pairs)
    while shuffle:
        rng.shuffle(ps)
        ks = [k for k, _ in ps]
        if all(ks.index(a) < ks.index(b) for a, b in order if a in ks and b in ks): break
    for _ in range(rng.choice((0, 0, 1, 2, 5)) if nunk is None else nunk): ps.insert(rng.randint(0, len(ps)), unknown(rng, known))
    return ps
def words(pairs):
    out = []
    for k, v in pairs: out += [k] + (["{"] + list(v) + ["}"] if isinstance(v, list) else [v])
    return out
def files(rng, ws_pairs, name="p.spf"):
    """Lays pairs out over one or more files that include each other."""
    fs, rest = [], list(ws_pairs)
    names = [name] + rng.sample(["codec.spf", "inc1", "snr.txt", "b-c.spf"], rng.choice((0, 0, 1, 2)))
    # every file but the first is included once by the one before it
    cuts = sorted(rng.randint(0, len(rest)) for _ in names[1:])
    parts = [rest[a:b] for a, b in zip([0] + cuts, cuts + [len(rest)])]
    tail = None
    for n, p in reversed(list(zip(names, parts))):
        w = words(p) + (["include", tail] if tail else [])
        fs.insert(0, (n, (rand_layout(rng, w) or " ").encode())); tail = n
    return fs

# ------------------------------------------------------------------ P02
def sim_pairs(rng, cfg, res, form=None):
    ps = [("res_file", res), ("mock_k", str(cfg.k)), ("mock_n", str(cfg.n)), ("mock_zero", "0" if cfg.rnd else "1")]
    mt = cfg.min_trn if (cfg.min_trn or 0) > 0 else 1
    form = form or rng.choice("ab")
    if cfg.init is not None and (form == "a" or len(set(x if x > 0 else mt for x in cfg.init)) > 1):
        ps.append(("SNR_val_trn", [w for s, t in zip(cfg.snr, cfg.init) for w in (spelldec(rng, s), spell(rng, rng.choice((t, mt)) if t > 0 and t == mt else rng.choice((t, 0, -1)) if t <= 0 else t))]))
    elif form == "a":
        ps.append(("SNR_val_trn", [w for s in cfg.snr for w in (spelldec(rng, s), spell(rng, rng.choice((0, mt))))]))
    else:
        ps.append(("EbNo_values", [spelldec(rng, s) for s in cfg.snr]))
        if cfg.init is not None: mt = [x if x > 0 else mt for x in cfg.init][0]
    if mt != 1 or rng.random() < 0.4: ps.append(("min_trials_per_snr", spell(rng, mt if mt > 1 else rng.choice((1, 0, -3)))))
    me = cfg.minerr if (cfg.minerr or 0) > 0 else 1
    if me != 1 or rng.random() < 0.4: ps.append(("min_errors_per_snr", spell(rng, me if me > 1 else rng.choice((1, 0, -2)))))
    for k, v in (("ml_lb", cfg.ml or (cfg.hd and rng.random() < 0.5)), ("ml_lb_hard", cfg.hd), ("random_codeword", cfg.rnd)):
        if v: ps.append((k, "on"))
        elif rng.random() < 0.5: ps.append((k, rng.choice(OFFS)))
    if cfg.fixedR: ps.append(("fixed_R", spelldec(rng, cfg.fixedR)))
    return ps

RESNAMES = ["r.spf", "out-1.txt", "R", "on", "7", "res_file", "ml_lb", "x" * 60 + ".spf", "r_1.res.spf", "sub/r.spf"]
def codec_pairs(rng, cfg):
    """Parameters of a real codec (codes.Cfg) as pairs."""
    ws, ps = cfg.params().split(), []
    while ws:
        k = ws.pop(0)
        if ws[0] == "{":
            j = ws.index("}"); ps.append((k, ws[1:j])); ws = ws[j + 1:]
        else:
            v = ws.pop(0)
            ps.append((k, spell(rng, int(v)) if k in ("RM_m", "RM_r", "c_m", "list_size", "border_node_lsize") else v))
    if cfg.codec in ("dtrm_glp", "ca_polar_scl") and not cfg.perms and rng.random() < 0.2: ps.append(("permutations", [spell(rng, i) for i in range(cfg.m)]))
    if cfg.codec == "dtrm_glp" and "use_variable_list" not in cfg.params():
        if rng.random() < 0.4: ps.append(("use_variable_list", rng.choice(OFFS)))
        if rng.random() < 0.3: ps.append(("distance_threshold", ["1", "2.5", "4", "100"]))
    return ps
ORDER = {"dtrm_glp": [("RM_m", "permutations")], "ca_polar_scl": [("c_m", "permutations")]}
def rand_codec_cfg(rng, codec):
    m = rng.choice((2, 3, 3, 4, 4, 5))
    if codec in ("dtrm0", "dtrm1"): return Cfg(codec, m, rng.randint(1, m))
    if codec == "dtrm_glp":
        r = rng.randint(1, m - 1)
        mask = rand_mask(rng, leaves("rm0", m, r)) if rng.random() < 0.5 else None
        perms = [rand_perm(rng, m) for _ in range(rng.randint(1, 3))] if mask is None and rng.random() < 0.5 else None
        ex = ["use_variable_list", "on", "distance_threshold", "{", "1", "%.2f" % rng.uniform(0, 2 << m), "2", "6.5", str(rng.randint(2, 9)), "1e3", "}"] if rng.random() < 0.4 else []
        return Cfg(codec, m, r, mask, rng.choice((1, 2, 3, 5, 8)), perms, extra=ex)
    mask = rand_mask(rng, leaves("polar", m, 0), 0.7)
    g = rng.randint(0, min(4, sum(mask) // 2))
    return Cfg(codec, m, 0, mask, rng.choice((1, 2, 3, 4, 7)), crc=bstr(bits(rng, g)))

def run_files(fs, script, ret, cmds, codec=None, quiet=False, pre=()):
    """The simulator on these files in a directory of its own."""
    exe = sim_driver(codec)
    d = tmpname(".d"); os.mkdir(d); os.mkdir(d + "/sub")
    for n, t in fs: open(os.path.join(d, n), "wb").write(t)
    open(d + "/cmds", "w").write("\n".join((["out " + " ".join(script)] if script else []) + (["quiet"] if quiet else []) + ["init %s %d 1" % (fs[0][0], ret)] + cmds) + "\n")
    rc, out = run_proc([exe, "cmds", "ans"], cwd=d, timeout=100)
    ls = [l for l in open(d + "/ans", errors="replace").read().split("\n") if l] if os.path.exists(d + "/ans") else []
    shutil.rmtree(d, ignore_errors=True)
    return ls, None if rc == 0 and "end" in ls else "%s: %s" % (rc, crash_text(out))

def p02(chk):
    rng = chk.rng
    chk.model("MCParams", "MCParams.cfg")
    T = 3 if THOROUGH else 1
    known = SIMKEYS + CODECKEYS["mock"]
    # what the simulator does is what its files mean
    jobs = []
    for i in range(90 * T):
        cfg = rand_cfg(rng); res = rng.choice(RESNAMES)
        if rng.random() < 0.2: cfg.fixedR = rng.choice(("0.5", "1", "0.3"))
        times = rng.random() < 0.5
        script = rand_script(rng, cfg.k, rng.choice((5, 30, 100)), times)
        fs = files(rng, arrange(rng, sim_pairs(rng, cfg, res), known))
        cmds = [c.replace("cat r.spf", "cat " + res) for c in rand_cmds(rng)]
        jobs.append((cfg, res, fs, script, rng.choice((0, 3, 10)) if times else -1, cmds))
    sim_driver()
    def one(j):
        cfg, res, fs, script, ret, cmds = j
        lines, crash = run_files(fs, script, ret, cmds)
        r = sim_record(lines, crash, cmds)
        return dict(r, fs=[{"name": codes(n), "text": codes(t)} for n, t in fs], name=codes(fs[0][0]), rf=codes(res), snr=[micro(s) for s in cfg.snr],
                    show={n: t.decode(errors="replace") for n, t in fs}, script=script, ret=ret, cmds=cmds)
    recs = parallel(one, jobs)
    for i, r in enumerate(recs): r["id"] = i + 1
    for b in chk.validate("TraceParam", recs, what="run of parameter files")[:4]:
        chk.violation("the simulator does not do what its parameter files say: %s cmds=%s" % (json.dumps(b["show"]), ";".join(b["cmds"])[:200]), dict(b, stuck=stuck(b, "TraceParam")))
    # texts that mean the same
    recs = []
    nv = 6
    jobs = []
    for i in range(24 * T):
        if i % 2:
            cfg = rand_cfg(rng, rnd=rng.random() < 0.6); codec = None
            cfg.init = None if rng.random() < 0.4 else [rng.choice((0, 3, 8))] * len(cfg.snr) if rng.random() < 0.6 else cfg.init
            if rng.random() < 0.5: cfg.fixedR = rng.choice(("0.5", "1", "0.25", "2"))
            cp = None
        else:
            codec = sorted(CODECKEYS)[(i // 2) % 4]; codec = {"mock": "dtrm_glp"}.get(codec, codec)
            cp = rand_codec_cfg(rng, codec)
            cfg = SimCfg(rand_snrs(rng, rng.randint(1, 3) if "use_variable_list" not in cp.params() else 1, -2, 2), min_trn=rng.choice((5, 20)), minerr=rng.choice((2, 4)), ml=rng.random() < 0.5, hd=rng.random() < 0.2, rnd=rng.random() < 0.6)
        kn = SIMKEYS + CODECKEYS[codec or "mock"]
        res = rng.choice(RESNAMES)
        vs = []
        for v in range(nv):
            ps = sim_pairs(rng, cfg, res)
            if codec: ps = [p for p in ps if "mock" not in p[0]] + codec_pairs(rng, cp)
            vs.append(files(rng, arrange(rng, ps, kn, ORDER.get(codec, ()), nunk=0 if v == 0 else None)))
        jobs.append((codec, vs, ["m", "w1", "c"] * 20 + ["w1"] if not codec else None, res))
    flat = [(c, v, s, res) for c, vs, s, res in jobs for v in vs]
    for c in {f[0] for f in flat}: sim_driver(c)
    def obs(f):
        lines, crash = run_files(f[1], f[2], -1, ["runall", "save", "cat " + f[3], "close"], f[0], True)
        fin = final(lines, crash)
        return {"ok": fin["rc"] == 0, "rc": fin["rc"], "points": fin["points"], "note": fin["note"], "sg": sorted({l for l in lines if l.startswith("sg ")})}
    os_ = parallel(obs, flat)
    for i, (codec, vs, s, res) in enumerate(jobs):
        recs.append({"t": "sim", "codec": codec or "mock", "obs": os_[i * nv:(i + 1) * nv],
                     "fss": [{"fs": [{"name": codes(n), "text": codes(t)} for n, t in v], "name": codes(v[0][0])} for v in vs],
                     "show": [{n: t.decode(errors="replace") for n, t in v} for v in vs]})
    for codec in ("dtrm0", "dtrm1", "dtrm_glp", "ca_polar_scl"):
        cases, meta = [], []
        for i in range((25 if codec in ("dtrm0", "dtrm1") else 45) * T):
            cp = rand_codec_cfg(rng, codec)
            vs = [words(arrange(rng, codec_pairs(rng, cp), CODECKEYS[codec], ORDER.get(codec, ()), nunk=0 if v == 0 else None)) for v in range(nv)]
            use = ["enc 0 " + bstr(bits(rng, cp.k)) for _ in range(3)] + ["csnrn 0 0", "sg 0 " + hexf(rng.choice((0.5, 0.8)))]
            use += ["dec 0 " + " ".join(hexf(rng.choice((-1, 1)) + rng.gauss(0, 0.9)) for _ in range(cp.n)) for _ in range(3)]
            cases += [["init 0 " + " ".join(v)] + use for v in vs]
            meta.append((vs, use))
        ans = run_codec_cases(codec, cases)
        for i, (vs, use) in enumerate(meta):
            xs = [blist(u.split()[2]) for u in use if u.startswith("enc")]
            ob = []
            for a in ans[i * nv:(i + 1) * nv]:
                enc = [w for w in a if w[0] == "enc"]
                ob.append({"rc": int(a[0][1]) if a and a[0][0] == "init" else -9, "n": int(a[0][2]) if a and a[0][0] == "init" else 0, "k": int(a[0][3]) if a and a[0][0] == "init" else 0,
                           "words": [[x, blist(w[2])] for x, w in zip(xs, enc)], "decs": [w[1:] for w in a if w[0] == "dec"], "note": a[-1][1] if a and a[-1][0] == "CRASH" else ""})
            recs.append({"t": "codec", "codec": codec, "toks": [[codes(w) for w in v] for v in vs], "obs": ob, "show": [" ".join(v) for v in vs]})
    for i, r in enumerate(recs): r["id"] = i + 1
    for b in chk.validate("TraceSame", recs, what="equal parameters")[:6]:
        odd = [i for i, o in enumerate(b["obs"]) if o != b["obs"][0]]
        i = odd[0] if odd else 0
        chk.violation("parameter texts with the same meaning behave differently (%s): %s -> %s BUT %s -> %s" % (b["codec"], json.dumps(b["show"][0])[:250], json.dumps(b["obs"][0])[:150], json.dumps(b["show"][i])[:250], json.dumps(b["obs"][i])[:150]), shorten(b, 500))
    chk.extra["texts"] = sum(len(r["obs"]) for r in recs)

# ------------------------------------------------------------------ P03
INTS = ["-1", "0", "1", "2", "3", "5", "16", "-2147483648", "2147483647", "31", "32", "64", "100", "x"]
def base(codec, rng):
    if codec in ("dtrm0", "dtrm1"): return [("RM_m", "4"), ("RM_r", "2")]
    if codec == "dtrm_glp":
        b = [("RM_m", "4"), ("RM_r", "2"), ("border_node_mask", "111111"), ("border_node_lsize", "4")]
        if rng.random() < 0.5: b.append(("permutations", "0 1 2 3 3 2 1 0".split()))
        if rng.random() < 0.5: b += [("use_variable_list", "on"), ("distance_threshold", ["1", "5", "8", "100"])]
        return b
    if codec == "mock": return [("mock_k", "3"), ("mock_n", "8")]
    b = [("c_m", "4"), ("info_bits_mask", "0000000101111111"), ("list_size", "4")]
    if rng.random() < 0.5: b.append(("ca_polar_crc", "101"))
    return b
def setp(ps, k, v): return [(a, v if a == k else b) for a, b in ps] + ([] if any(a == k for a, _ in ps) else [(k, v)])

def p03_codec_lists(rng, codec, T):
    """Token lists around what is allowed."""
    out = []
    add = lambda ps: out.append(words(ps))
    B = base(codec, rng)
    for s in range(1 << len(B)): add([p for i, p in enumerate(B) if s >> i & 1])      # all subsets
    w = words(B)
    for i in range(len(w)): out.append(w[:i])                                        # cut short
    for k, v in B:
        if isinstance(v, list) or k in ("border_node_mask", "info_bits_mask", "ca_polar_crc", "use_variable_list"): continue
        for x in INTS + ["4", "6", "17"]: add(setp(B, k, x))
    if codec in ("dtrm0", "dtrm1"):
        for m in range(-1, 11):
            for r in range(-1, 13): add([("RM_m", str(m)), ("RM_r", str(r))])
        for m, r in ((16, 1), (16, 8), (16, 16), (14, 13), (12, 6), (17, 1)) + (((16, 15), (15, 15), (18, 1), (20, 2)) if T > 1 else ()): add([("RM_m", str(m)), ("RM_r", str(r))])
        for _ in range(20 * T): add(arrange(rng, [("RM_m", str(rng.randint(-1, 8))), ("RM_r", str(rng.randint(-1, 8)))], CODECKEYS[codec]))
    if codec == "dtrm_glp":
        for m in range(0, 7):
            for r in range(0, m + 2):
                c = binom(m, r)
                for l in sorted({c - 1, c, c + 1, 1}):
                    for ones in sorted({0, 1, l // 2, l}):
                        if l < 1 or ones > l: continue
                        mk = ["1"] * ones + ["0"] * (l - ones); rng.shuffle(mk)
                        add([("RM_m", str(m)), ("RM_r", str(r)), ("border_node_mask", "".join(mk)), ("border_node_lsize", str(rng.choice((1, 2, 3, 4, 7, 16, 100))))])
        for m, r, mk, L in ((16, 1, "1" * 16, 4), (16, 1, "1" + "0" * 15, 4096), (14, 1, "0" * 13 + "1", 4096), (10, 5, "1" * 252, 8), (12, 3, "1" * 220, 2), (16, 2, "1" * 120, 1), (9, 8, "1" * 9, 5000), (5, 2, "1" * 10, 4096), (8, 1, "11111111", 4097), (4, 2, "111111", 1000000)):
            add([("RM_m", str(m)), ("RM_r", str(r)), ("border_node_mask", mk), ("border_node_lsize", str(L))])
        if T > 1:
            for m, r, mk, L in ((16, 8, "1" * 12870, 2), (16, 15, "1" * 16, 2), (15, 3, "10" * 230, 64)): add([("RM_m", str(m)), ("RM_r", str(r)), ("border_node_mask", mk), ("border_node_lsize", str(L))])
        for v in ([], ["1"], ["1", "2", "3"], ["0", "1"], ["-1", "2"], ["1", "x"], ["2", "1e9"] * 50, ["2", "1e9"] * 51, ["3", "0"] * 49, ["1", "2"] * 200, ["5000", "1"], ["1", "0", "2", "0", "3", "0"]):
            for on in ("on", "off"):
                b = [p for p in B if p[0] not in ("use_variable_list", "distance_threshold")] + [("distance_threshold", v), ("use_variable_list", on)]
                add(b); out.append(words(b)[:-3]); out.append(words(b[:-2]) + ["use_variable_list", on, "distance_threshold"] + v); add(arrange(rng, b, CODECKEYS[codec], ORDER[codec]))
    if codec == "ca_polar_scl":
        for m in range(0, 6):
            n = 1 << m
            for l in sorted({n - 1, n, n + 1, 1}):
                for ones in sorted({0, 1, 2, l // 2, l}):
                    if l < 1 or ones > l: continue
                    mk = ["1"] * ones + ["0"] * (l - ones); rng.shuffle(mk)
                    for crc in (None, "1", "01", "1" * max(1, ones - 1), "0" * max(1, ones), "1" * (ones // 2 + 1), "10" * ones + "1"):
                        if crc is not None and rng.random() < (0.5 if T == 1 else 0): continue
                        add([("c_m", str(m)), ("info_bits_mask", "".join(mk)), ("list_size", str(rng.choice((1, 2, 3, 4, 7, 16, 100))))] + ([("ca_polar_crc", crc)] if crc else []))
        for m, ones, L, crc in ((16, 65536, 1, None), (16, 3, 4096, "1"), (10, 512, 8, "11000010001"), (12, 2048, 4, "1" * 24), (14, 2, 4096, None), (8, 128, 5000, None), (4, 8, 4097, "1010"), (4, 8, 1000000, None), (9, 300, 3, "1" * 64), (10, 800, 2, "1" * 300), (11, 1500, 2, "10" * 350)):
            n = 1 << m; mk = sorted(["1"] * ones + ["0"] * (n - ones))
            add([("c_m", str(m)), ("info_bits_mask", "".join(mk)), ("list_size", str(L))] + ([("ca_polar_crc", crc)] if crc else []))
    if codec in ("dtrm_glp", "ca_polar_scl"):
        b = [p for p in base(codec, rng) if p[0] != "permutations"]
        mk = b[0][0]
        for pv in ("", "0 1 2 3", "3 2 1 0", "0 1 2", "0 1 2 3 4", "0 1 2 3 0", "0 0 1 2", "0 1 2 4", "0 1 2 -1", "-1 0 1 2", "1 2 3 4", "0 1 2 x", "x", "0 1 2 3 1 1 1 1", "0 1 2 3 3 2 1 0 1 0 2 3", "0 1 2 99999999", "0 " * 4, "0 1 2 3 " * 300, "0 1 2 3 " * 300 + "0", "0 1 2 3 { 3 2 1 0"):
            p = ("permutations", pv.split())
            add(b + [p]); add([b[0], p] + b[1:]); add([p] + b); out.append(words(b + [p])[:-1]); add(b[1:] + [p]); add(arrange(rng, b + [p], CODECKEYS[codec], ORDER[codec]))
        add(b + [("permutations", "0")]); out.append(words(b) + ["permutations"]); out.append(words(b) + ["permutations", "}"]); out.append(words(b) + ["permutations", "{"]); out.append(words(b) + ["permutations", "0", "1", "2", "3", "}"])
        for m in ("1", "2", "0", "-1", "30", "31", "x", "99"): add([(mk, m), ("permutations", ["0", "1"])] + b[1:]); add([(mk, m), ("permutations", [])] + b[1:])
        for _ in range(40 * T):
            m = rng.randint(1, 5)
            q = [x for _ in range(rng.randint(1, 4)) for x in rand_perm(rng, m)]
            if rng.random() < 0.5: q[rng.randrange(len(q))] = rng.randint(-2, m + 1)
            if rng.random() < 0.2: q = q[:rng.randrange(len(q))]
            bb = [(mk, str(m))] + ([("RM_r", "1"), ("border_node_mask", "1" * m), ("border_node_lsize", "4")] if codec == "dtrm_glp" else [("info_bits_mask", "1" * (1 << m)), ("list_size", "4")])
            add(bb[:1] + [("permutations", [str(x) for x in q])] + bb[1:])
    for _ in range(60 * T):      # several things at once
        ps = list(base(codec, rng))
        for _ in range(rng.randint(1, 3)):
            if not ps: break
            i = rng.randrange(len(ps)); x = rng.random()
            if x < 0.3: ps.pop(i)
            elif isinstance(ps[i][1], str) and x < 0.8: ps[i] = (ps[i][0], rng.choice(INTS[:7]) if "mask" not in ps[i][0] and "crc" not in ps[i][0] else "".join(rng.choice("01") for _ in range(rng.randint(1, 20))))
            else: ps = arrange(rng, ps, CODECKEYS[codec])
        add(ps)
    return out

def p03(chk):
    rng = chk.rng
    chk.model("MCParams", "MCParams.cfg")
    T = 3 if THOROUGH else 1
    recs = []
    for codec in ("dtrm0", "dtrm1", "dtrm_glp", "ca_polar_scl"):
        lists = p03_codec_lists(rng, codec, T)
        a1 = run_codec_cases(codec, [["init 0 " + " ".join(l)] if l else ["initnull 0"] for l in lists])
        use = {}
        for i, a in enumerate(a1):     # everything accepted is used
            if not a or a[0][0] != "init" or int(a[0][1]) != 0: continue
            n, k = int(a[0][2]), int(a[0][3])
            if not (1 <= k <= n <= 1 << 20): continue
            big = n > 4096
            c = ["init 0 " + " ".join(lists[i]), "csnrn 0 0", "enc 0 " + bstr(bits(rng, k)), "sg 0 " + hexf(rng.choice((0.3, 0.7, 1.0)))]
            vs = [[rng.gauss(0, 1) for _ in range(n)], [-1 + rng.gauss(0, 0.6) for _ in range(n)]]
            if not big: vs += [[0.0] * n, [rng.choice((-1, 1)) * 10.0 ** rng.randint(-12, 6) for _ in range(n)], [1.0] * n]
            use[i] = c + ["dec 0 " + " ".join("%.6g" % v for v in y) for y in (vs[1:] if big else vs)] + ["close 0"]
        ix = sorted(use)
        rng.shuffle(ix)        # spreads the large ones
        a2 = dict(zip(ix, run_codec_cases(codec, [use[i] for i in ix])))
        for i, (l, a) in enumerate(zip(lists, a1)):
            r = {"t": "codec", "codec": codec, "toks": [codes(w) for w in l], "show": " ".join(l)[:400], "rc": -9, "n": 0, "k": 0, "use": [], "note": ""}
            b = a2.get(i, a)
            if a and a[0][0] == "init": r.update(rc=int(a[0][1]), n=int(a[0][2]), k=int(a[0][3]))
            for w in b:
                if w[0] in ("enc", "dec"): r["use"].append({"op": w[0], "rc": int(w[1]), "len": len(w[2]), "good": sum(ch in "01" for ch in w[2]) if w[3:] == ["1"] else -1})
            if not b or b[-1][0] == "CRASH": r["rc"] = -9; r["note"] = b[-1][1] if b else "no answer"
            recs.append(r)
    # the simulator
    jobs = []
    good = [("res_file", "r.spf"), ("EbNo_values", ["1", "2"])]
    def addsim(ps, codec=None, raw=None): jobs.append((codec, raw or [("p.spf", (" ".join(ps if ps and isinstance(ps[0], str) else words(ps)) + "\n").encode())]))
    M = base("mock", rng)
    for s in range(1 << 4):
        opt = good + [("SNR_val_trn", ["1", "2"]), ("min_trials_per_snr", "2")]
        addsim([p for i, p in enumerate(opt) if s >> i & 1] + M)
    for num in (0, 1, 2, 3, 25, 49, 50, 51, 52, 99, 100, 101, 102, 500):
        v = ["%.2f" % (i / 7) for i in range(num)]
        addsim(M + [("res_file", "r.spf"), ("EbNo_values", v)])
        addsim(M + [("EbNo_values", v), ("res_file", "r.spf")])
        addsim(M + [("res_file", "r.spf"), ("SNR_val_trn", [w for x in v for w in (x, "2")])])
        addsim(M + [("res_file", "r.spf"), ("SNR_val_trn", [w for x in v for w in (x, "2")][:-1])])
        addsim(words(M + [("res_file", "r.spf"), ("EbNo_values", v)])[:-1])
    w = words(M + good)
    for i in range(len(w)): addsim(w[:i])
    w = words(good + M)
    for i in range(1, len(w)): addsim(w[:i])
    for x in (["EbNo_values", "1", "2", "}"], ["EbNo_values", "}"], ["EbNo_values", "5"], ["SNR_val_trn", "5"], ["SNR_val_trn", "{", "}"], ["SNR_val_trn", "{"], ["res_file", "{", "a", "}"], ["res_file", "{"], ["EbNo_values", "{", "1", "{", "2", "}"]):
        addsim(["res_file", "r.spf"] + x + words(M)); addsim(words(M) + x + ["res_file", "r.spf"]); addsim(["EbNo_values", "{", "1", "}"] + words(M) + x)
    for l in (1, 100, 150, 200, 240, 255, 1000, 4095, 5000, 20000): addsim(M + [("res_file", "r" * l), ("EbNo_values", ["1"])])
    for k, vs in (("min_trials_per_snr", INTS[:7]), ("min_errors_per_snr", INTS[:6]), ("fixed_R", ["0.5", "1", "0.001"])):
        for v in vs: addsim(M + good + [(k, v)])
    addsim(M + good + [("mock_fail", "1")])
    addsim(None, raw=[("p.spf", b"")]); addsim(None, raw=[("p.spf", b"% nothing\n")]); addsim(None, raw=[("p.spf", b"include nofile\n" + " ".join(words(M + good)).encode())])
    addsim(None, raw=[("p.spf", (" ".join(words(M + good)) + "\ninclude").encode())]); addsim(None, raw=[("q.spf", b"x")])
    for codec in ("dtrm0", "dtrm1", "dtrm_glp", "ca_polar_scl"):
        B = base(codec, rng)
        for s in range(1 << min(len(B), 5)): addsim(arrange(rng, good + [p for i, p in enumerate(B) if not i < 5 or s >> i & 1], SIMKEYS + CODECKEYS[codec], ORDER.get(codec, ())), codec)
        for l in rng.sample(p03_codec_lists(rng, codec, 1), 40 * T):
            if len(l) < 400 and all(len(w) < 300 for w in l): addsim(words(good) + l, codec)
        addsim(good, codec); addsim(B, codec)
    for _ in range(80 * T):
        ps = M + good + [("min_trials_per_snr", rng.choice(INTS[:6])), ("ml_lb", rng.choice(OFFS + ["on"]))]
        for _ in range(rng.randint(0, 2)):
            x = rng.random()
            if x < 0.4: ps.pop(rng.randrange(len(ps)))
            elif x < 0.7: ps = arrange(rng, ps, SIMKEYS + CODECKEYS["mock"])
            else: i = rng.randrange(len(ps)); ps[i] = (ps[i][0], [str(rng.randint(0, 9)) for _ in range(rng.choice((0, 1, 2, 50, 51)))])
        addsim(ps)
    for c in {c for c, _ in jobs}: sim_driver(c)
    OLD = "% old\nSNR { 1.00 }\ntr_num { 5 }\nen_bit { 2 }\nen_bl { 1 }\nerasures_num { 0 }\nml_tr_num { 0 }\nenml_bl { 0 }\n"
    def one(j):
        codec, fs = j
        exe = sim_driver(codec)
        d = tmpname(".d"); os.mkdir(d)
        for n, t in fs: open(os.path.join(d, n), "wb").write(t)
        open(d + "/r.spf", "w").write(OLD)
        open(d + "/cmds", "w").write("out w1\nquiet\ninit p.spf -1 1\nrunall\nsave\nclose\n")
        rc, out = run_proc([exe, "cmds", "ans"], cwd=d, timeout=200)
        ls = [l for l in open(d + "/ans", errors="replace").read().split("\n") if l] if os.path.exists(d + "/ans") else []
        kept = os.path.exists(d + "/r.spf") and open(d + "/r.spf", errors="replace").read() == OLD
        shutil.rmtree(d, ignore_errors=True)
        ini = [int(l.split()[1]) for l in ls if l.startswith("init ")]
        run = [int(l.split()[1]) for l in ls if l.startswith("run ")]
        sv = [int(l.split()[1]) for l in ls if l.startswith("save ")]
        ok = rc == 0 and "end" in ls
        return {"t": "sim", "codec": codec or "mock", "fs": [{"name": codes(n), "text": codes(t)} for n, t in fs], "name": codes("p.spf"), "rc": ini[0] if ok and ini else -9,
                "run": [run[-1], sv[-1]] if run and sv else [], "kept": kept, "note": "" if ok else "%s: %s" % (rc, crash_text(out)), "show": {n: t.decode(errors="replace")[:400] for n, t in fs}}
    recs += parallel(one, jobs)
    for i, r in enumerate(recs): r["id"] = i + 1
    bad = chk.validate("TraceInit", recs, what="initialisation")
    for b in bad[:8]:
        chk.violation("initialisation or use with these parameters (%s): %s -> rc=%s %s%s" % (b["codec"], json.dumps(b["show"])[:350], b["rc"], b["note"][:200], " use=%s" % [u for u in b.get("use", []) if u["good"] != u["len"]][:3] if b["t"] == "codec" else " run=%s kept=%s" % (b["run"], b["kept"])), shorten(b, 600))
    chk.extra["parameter_sets"] = len(recs)

# ------------------------------------------------------------------ P04
def fast_lib():
    exe = os.path.join(WORK, "fast.so")
    if not os.path.exists(exe):
        rc, out = sh(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", exe, os.path.join(VERIF, "harness", "fast.c")])
        if rc: raise Infra("fast.so: " + out)
    return exe
def call_cli(codec, flavour, args, cwd, argv0=None, timeout=200, env={}):
    """Runs an executable simulator; returns (exit status or -9, stdout)."""
    exe = os.path.join(build(flavour), codec + "_bg")
    sh_ = 'e=$1; shift; ulimit -f 131072 2>/dev/null; export LD_PRELOAD=$1; shift; exec -a "$0" "$e" "$@"'
    rc, out = run_proc(["/bin/bash", "-c", sh_, argv0 or exe, exe, fast_lib()] + list(args), cwd=cwd, timeout=timeout,
                       extra_env=dict(env, ASAN_OPTIONS=ASAN_ENV["ASAN_OPTIONS"] % 0xbe + ":verify_asan_link_order=0"))
    return (-9 if rc == "timeout" or rc < 0 or rc == 97 or rc >= 128 and "ERROR: AddressSanitizer" in out else rc), out
def cli_rows(out):
    """The last results printed."""
    ls = out.replace("\r", "\n").split("\n")
    at = [i for i, l in enumerate(ls) if re.match(r"SNR\s+[A-Za-z]", l)]
    if not at: return {"ok": False, "rows": []}
    rows = []
    for l in ls[at[-1] + 1:]:
        if not re.match(r"\s*-?\d", l): break
        rows.append([dec2(x) for x in l.split()])
    return {"ok": True, "rows": rows}
def cli_progress(out):
    """The status lines printed: [[snr, digits], point, points, trials, required, errors, ML errors or -1]."""
    res = []
    for l in re.split(r"[\r\n]", out):
        m = re.fullmatch(r"SNR:\s*(-?[\d.]+) \((\d+) / (\d+)\), trn: (-?\d+) / (-?\d+), en: (-?\d+)(?:, ML en: (-?\d+))?\.\s*", l)
        if m: res.append([dec2(m[1])] + [int(m[i]) for i in range(2, 7)] + [-1 if m[7] is None else int(m[7])])
    # the first, the last and some between
    return [res[i] for i in sorted(set(list(range(min(len(res), 20))) + list(range(max(0, len(res) - 20), len(res)))))]
from res import save_event, rand_rows, res_text
def cli_record(rng, codec, cp, flavour):
    cfgs = []
    for i in range(rng.choice((1, 2, 2))):
        cfgs.append(SimCfg(rand_snrs(rng, rng.choice((1, 2, 3, 6)) if "use_variable_list" not in cp.params() else 1, -3, 2), min_trn=rng.choice((1, 30, 150)), minerr=rng.choice((1, 4, 8)), ml=rng.random() < 0.5, hd=rng.random() < 0.2, rnd=rng.random() < 0.6,
                           init=None if rng.random() < 0.6 else [rng.choice((0, 20, 200))]))
        if cfgs[-1].init: cfgs[-1].init = cfgs[-1].init * len(cfgs[-1].snr)
    res = rng.choice(RESNAMES)
    known = SIMKEYS + CODECKEYS[codec]
    fs = []
    for i, cfg in enumerate(cfgs):
        ps = [p for p in sim_pairs(rng, cfg, res) if "mock" not in p[0]] + codec_pairs(rng, cp)
        one = files(rng, arrange(rng, ps, known, ORDER.get(codec, ())), "p%d.spf" % i)
        ren = {n: "%d-%s" % (i, n) for n, _ in one[1:]}
        # the included files of different parameter files are kept apart
        fs += [(ren.get(n, n), re.sub(rb"(include[^\w-]+)([\w.-]+)", lambda m: m[1] + ren[m[2].decode()].encode() if m[2].decode() in ren else m[0], t)) for n, t in one]
    good = [p for p in sim_pairs(rng, cfgs[0], res) if "mock" not in p[0]] + codec_pairs(rng, cp)
    bads = {"noend.spf": " ".join(words(sorted(good, key=lambda p: p[0] in ("EbNo_values", "SNR_val_trn")))[:-1]), "nores.spf": " ".join(words([p for p in good if p[0] != "res_file"])), "nosnr.spf": " ".join(words([p for p in good if p[0] not in ("EbNo_values", "SNR_val_trn")])),
            "empty.spf": "", "inc.spf": " ".join(words(good)) + "\ninclude nothere.spf\n", "nocodec.spf": " ".join(words([p for p in good if p[0] not in CODECKEYS[codec]])),
            "many.spf": " ".join(words([p for p in good if p[0] not in ("EbNo_values", "SNR_val_trn")] + [("EbNo_values", [str(i) for i in range(rng.choice((51, 60, 120)))])])), "dir.spf/x": "a"}
    bad = rng.sample(sorted(bads), 3)
    for b in bad: fs.append((b, bads[b].encode()))
    d = tmpname(".d"); os.makedirs(d + "/sub")
    for n, t in fs:
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), "wb").write(t)
    rp = os.path.join(d, res)
    old = rand_rows(rng, rng.choice((1, 3, 8))) if rng.random() < 0.5 else None
    if old: open(rp, "w").write(res_text(rng, old, cp.n, cp.k))
    read = lambda: open(rp, "rb").read() if os.path.exists(rp) else None
    ev, log = [], []
    def call(args, argv0=None, die=0):
        before = read()
        env = {"FAST_T0": str(rng.randint(10**9, 2 * 10**9))}
        if die: env["FAST_DIE"] = str(die)
        st, out = call_cli(codec, flavour, args, d, argv0, env=env)
        if st == 86 and die and os.path.exists(rp + ".bsy"): os.unlink(rp + ".bsy")
        now = read()
        a = save_event(0, now.decode(errors="replace") if now is not None else None)
        ev.append({"e": "killed" if st == 86 and die else "call", "after_s": die // 3, "args": [codes(x) for x in args], "status": st, "out": cli_rows(out), "said": bool(re.search(r"\S", out)), "prog": cli_progress(out), "after": {"has": a["has"], "wf": a["wf"], "rows": a["rows"], "n": a["n"], "k": a["k"], "rates": a["rates"], "table": a["table"], "kept": now == before}})
        log.append("%s -> %s" % (" ".join(args)[:80], st) + (" " + crash_text(out) if st == -9 else ""))
    def opts():
        o = [["-nr"]] * rng.choice((1, 1, 1, 1, 0, 2)) + ([["-si", rng.choice(("0", "1", "5", "600", "-1"))]] if rng.random() < 0.6 else []) + ([["-ri", rng.choice(("0", "1", "3", "10", "1000"))]] if rng.random() < 0.7 else [])
        rng.shuffle(o)
        return [x for y in o for x in y]
    # "-si" first can also save before the first return
    for _ in range(rng.choice((3, 4, 6))):
        x = rng.random()
        if x < 0.15:
            si, ri = rng.choice((-1, 0, 1, 3, 8)), rng.choice((0, 1, 2, 5))
            call(["p0.spf", "-nr", "-si", str(si), "-ri", str(ri)], die=rng.choice((rng.randint(5, 60), 3 * (max(si, 0) + ri + 6))))
        elif x < 0.62: call([rng.choice(["p%d.spf" % i for i in range(len(cfgs))])] + opts())
        elif x < 0.82: call([rng.choice([b.split("/")[0] for b in bad] + ["nothere.spf", "", "-nr", "x" * 5000])] + opts())
        elif x < 0.88: call([], rng.choice((None, None, "x" * 3000, "./" + "d/" * 20000 + "x")))
        elif x < 0.91: call(["p0.spf", rng.choice(("-si", "-ri", "-x", "nr", "-nr1", "--help"))] + opts())
        elif x < 0.95:
            open(rp + ".bsy", "w").write("x"); ev.append({"e": "busy", "v": True})
            call(["p0.spf"] + opts())
            os.unlink(rp + ".bsy"); ev.append({"e": "busy", "v": False})
        else:
            was = read()
            t = rng.choice((b"SNR { 1 2 } tr_num { 5 }\n", b"include nothere.srf\n", b"SNR { 1\n", b"hello\n" * 40000, (was or b"SNR { }") + b"\ntr_num { " + b"7 " * 29 + b"}\n"))
            open(rp, "wb").write(t); ev.append({"e": "spoil", "v": True})
            call(["p0.spf"] + opts())
            if was is None: os.unlink(rp)
            else: open(rp, "wb").write(was)
            ev.append({"e": "spoil", "v": False})
    shutil.rmtree(d, ignore_errors=True)
    fsr = [{"name": codes(n), "text": codes(t)} for n, t in fs if "/" not in n]
    return {"codec": codec, "crc": bool(cp.crc), "n": cp.n, "k": cp.k, "fs": fsr, "rf": codes(res), "old": old or [], "events": ev, "show": {n: t.decode(errors="replace")[:400] for n, t in fs}, "log": log}

def p04(chk):
    rng = chk.rng
    chk.model("MCSimRun", text=MODEL_SIM % 2)
    T = 4 if THOROUGH else 1
    build("asan"); build("plain"); fast_lib()
    jobs = [(rng.randint(1, 10**9), c, f) for c in ("dtrm0", "dtrm1", "dtrm_glp", "ca_polar_scl") for f in ("asan", "plain") for _ in range(18 * T)]
    recs = parallel(lambda j: (lambda r: cli_record(r, j[1], rand_codec_cfg(r, j[1]), j[2]))(random.Random(j[0])), jobs)
    for i, r in enumerate(recs): r["id"] = i + 1
    for b in chk.validate("TraceCli", recs, what="calls of an executable")[:5]:
        st = stuck(b, "TraceCli")
        chk.violation("%s_bg does not run parameter files end to end: %s; stuck at event %s of: %s" % (b["codec"], json.dumps(b["show"])[:400], json.dumps(st)[:300], "; ".join(b["log"])[:600]), dict(b, stuck=st))
    chk.extra["calls"] = sum(1 for r in recs for e in r["events"] if e["e"] == "call")

CHECKS = {"P02": p02, "P03": p03, "P04": p04}
