"""P05: the parameter and code files that come with the programs."""
from par import *
from spf import read_files
from res import save_event

RM = re.compile(r"(?:rm(?P<r>\d\d)(?P<m>\d\d))(?:_tr(?P<hex>[0-9A-F]+))?|polar(?P<pm>\d\d)_ca(?P<crc>\d+)_CF_k(?P<k>\d+)")
def claim(name):
    """What a name says; None for a file of another kind."""
    base = os.path.basename(name)[:-4]
    g = RM.search(base)
    c = {"kind": "rm", "m": 0, "r": 0, "k": 0, "crclen": 0, "hex": [], "perm": "none", "L": 0, "codec": "", "base": []}
    cy = re.fullmatch(r"p(\d\d)cyclic", base)
    if cy: c.update(m=int(cy[1]), r=2, perm="cyclic"); return c
    if not g: return None
    if g["pm"]: c.update(kind="polar", m=int(g["pm"]), crclen=int(g["crc"]), k=int(g["k"]))
    else: c.update(m=int(g["m"]), r=int(g["r"]), hex=[int(h, 16) for h in g["hex"] or ""])
    p = re.search(r"_P(1|cyclic|mCr)(?:_|$)", base)
    if p: c["perm"] = {"1": "none"}.get(p[1], p[1])
    if re.search(r"_L(\d+)", base): c["L"] = int(re.search(r"_L(\d+)", base)[1])
    if name.endswith(".spf"):
        c["base"] = codes(base)
        c["codec"] = "ca_polar_scl" if g["pm"] else re.search(r"_(dtrm0|dtrm1|dtrm_glp)(?:_|$)", base)[1]
    return c

def p05(chk):
    rng = chk.rng
    chk.model("MCParams", "MCParams.cfg")
    top = os.path.join(REPO, "work")
    listed = subprocess.run(["git", "-C", REPO, "ls-files", "work"], capture_output=True, text=True).stdout.split()
    files_ = sorted(f[5:] for f in listed if f.endswith((".spf", ".txt"))) or sorted(os.path.relpath(os.path.join(d, f), top) for d, _, fs in os.walk(top) for f in fs if f.endswith((".spf", ".txt")) and "CMake" not in f)
    all_ = [(f, open(os.path.join(top, f), "rb").read()) for f in files_ if os.path.exists(os.path.join(top, f))]
    have = {f for f, _ in all_}
    jobs = []
    for f, _ in all_:
        c = claim(f)
        if c is None: continue
        fs, name = list(all_), f
        if not f.endswith(".spf"):
            # a code file: with the code it belongs to and a list size
            t = "border_node_lsize 3\nlist_size 3\n"
            if c["perm"] != "none": t += "include codes/rm/rm%02d%02d.txt\n" % (c["r"], c["m"])
            t += "include %s\n" % f
            name = "main.spf"; fs.append((name, t.encode()))
        need = [x for x in fs if x[0] == name]
        for x in need:      # only the files it uses
            for y in re.findall(rb"include[\s,]+(\S+)", x[1]):
                need += [z for z in fs if z[0] == y.decode() and z not in need]
        jobs.append((f, c, need, name))
    toks = read_files([(fs, name) for _, _, fs, name in jobs])
    recs = []
    per = {}
    for i, ((f, c, fs, name), t) in enumerate(zip(jobs, toks)):
        tk = t[1] if isinstance(t, tuple) else []
        r = {"id": i + 1, "file": f, "claim": c, "fs": [{"name": codes(n), "text": codes(x)} for n, x in fs], "name": codes(name), "toks": [codes(x) for x in tk], "obs": [], "run": {"e": False}, "note": "" if isinstance(t, tuple) else t}
        recs.append(r)
        if c["codec"]: cs = [c["codec"]]
        elif c["kind"] == "polar": cs = ["ca_polar_scl"]
        elif c["perm"] != "none" or c["hex"]: cs = ["dtrm_glp"]
        else: cs = ["dtrm0", "dtrm1"] + (["dtrm_glp"] if c["r"] < c["m"] else [])
        for x in cs: per.setdefault(x, []).append((r, " ".join(w.decode(errors="replace") for w in tk)))
    K = 6 if THOROUGH else 3
    for codec, rs in per.items():
        ini = run_codec_cases(codec, [["init 0 " + p] for _, p in rs])
        ks = [int(a[0][3]) if a and a[0][0] == "init" and a[0][1] == "0" else 0 for a in ini]
        xs = [[bits(rng, k) for _ in range(K)] for k in ks]
        enc = run_codec_cases(codec, [["init 0 " + p] + ["enc 0 " + bstr(x) for x in v if x] for (_, p), v in zip(rs, xs)])
        words_ = [[w[2] for w in a if w[0] == "enc"] for a in enc]
        dec = run_codec_cases(codec, [["init 0 " + p, "csnrn 0 0", "sg 0 " + hexf(0.5)] + ["dec 0 " + " ".join({"1": "1", "0": "-1"}.get(b, "0") for b in w) for w in ws] for (_, p), ws in zip(rs, words_)])
        for (r, _), a, v, e, ws, d in zip(rs, ini, xs, enc, words_, dec):
            ds = [w for w in d if w[0] == "dec"]
            r["obs"].append({"codec": codec, "rc": int(a[0][1]) if a and a[0][0] == "init" else -9, "n": int(a[0][2]) if a and a[0][0] == "init" else 0, "k": int(a[0][3]) if a and a[0][0] == "init" else 0,
                             "words": [[x, blist(w)] for x, w in zip(v, ws)], "back": [blist(w[2]) for w in ds], "rcs": [int(w[1]) for w in ds], "note": str(d[-1:]) if len(ds) < len(ws) else ""})
    build("plain"); fast_lib()
    def run(j):
        f, c, fs, name = j
        if not c["codec"]: return {"e": False}
        d = tmpname(".d"); os.makedirs(d + "/results")
        for n, x in fs:
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True); open(os.path.join(d, n), "wb").write(x)
        st, out = call_cli(c["codec"], "plain", [f, "-si", "0", "-ri", "0"], d, env={"FAST_T0": str(rng.randint(10**9, 2 * 10**9)), "FAST_DIE": "60"})
        p = os.path.join(d, "results", os.path.basename(f)[:-4] + ".srf")
        a = save_event(0, open(p, errors="replace").read() if os.path.exists(p) else None)
        shutil.rmtree(d, ignore_errors=True)
        return {"e": True, "st": st, "has": a["has"], "wf": a["wf"], "n": a["n"], "k": a["k"], "snrs": [w[0] for w in a["rows"]]}
    for r, q in zip(recs, parallel(run, jobs)): r["run"] = q
    for b in chk.validate("TraceShip", recs, what="shipped files")[:6]:
        chk.violation("%s does not mean what its name says: %s" % (b["file"], json.dumps({"claim": b["claim"], "note": b["note"], "obs": [{k: o[k] for k in ("codec", "rc", "n", "k", "rcs", "note")} for o in b["obs"]], "run": b["run"]})[:900]), shorten(b, 300))
    chk.extra["files"] = len(recs)

CHECKS = {"P05": p05}
