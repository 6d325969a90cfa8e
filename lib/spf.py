"""Checks of parameter files, parameters and the executables (P*)."""
import itertools
from common import *
from sim import *

def codes(s): return list(s.encode("utf-8", "surrogateescape")) if isinstance(s, str) else list(s)
def spf_driver(flavour="asan"): return link("spf", ["spf_driver.c"], objects("dtrm_glp_bg", flavour), flavour)

def read_files(jobs):
    """jobs: ([(name, bytes)], main name).  Returns for each (rc, [token bytes]) or a crash text."""
    exe = spf_driver()
    def one(part):
        base = tmpname(".d"); os.mkdir(base)
        res, k = [], 0
        for n, (fs, name) in enumerate(part):
            d = "%s/%d" % (base, n); os.mkdir(d)
            for f, t in fs:
                p = os.path.join(d, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "wb").write(t)
        while k < len(part):
            lf, of = tmpname(".l"), tmpname(".o")
            open(lf, "w").write("".join("%s/%d %s\n" % (base, n, part[n][1]) for n in range(k, len(part))))
            rc, out = run_proc([exe, lf, of], timeout=300)
            ls = open(of, errors="replace").read().split("\n") if os.path.exists(of) else []
            done = []
            for l in ls:
                w = l.split(" ")
                if len(w) < 2 or not w[1]: continue
                done.append((int(w[1]), [b"" if x == "-" else bytes.fromhex(x) for x in w[2:]]))
            if rc == 0 and "end" in ls: res += done; break
            done = done[:len(part) - k - 1]
            res += done + ["%s: %s" % (rc, crash_text(out))]; k += len(done) + 1
        shutil.rmtree(base, ignore_errors=True)
        return res
    out = []
    for r in parallel(one, chunks(jobs, NCPU)): out += r
    return out

TOKCH = "abzABZ0189.-+_/:;=~!?*#$@&^|<>()[]'\"`\\"
def rand_word(rng):
    x = rng.random()
    if x < 0.06: return rng.choice(("includes", "xinclude", "Include", "on", "include.", "include1", "inc"))
    if x < 0.12: return rng.choice(("{", "}"))
    if x < 0.16: return "\u00e9\u00df"[rng.randrange(2)] + "x" * rng.randint(0, 2)
    return "".join(rng.choice(TOKCH) for _ in range(rng.choice((1, 1, 2, 3, 8, 30))))
def rand_sep(rng, nl):
    x = rng.random()
    s = rng.choice((" ", " ", "  ", "\t", ",", ", ", nl, nl, nl + nl, nl + "  \t", " " + nl))
    if x < 0.2: s = rng.choice(("", " ", ", ")) + "%" + "".join(rng.choice("ab {}%,include\t\r") for _ in range(rng.randint(0, 12))) + nl + rng.choice(("", " ", "%" + nl))
    return s
def rand_layout(rng, words, nl=None):
    nl = nl or rng.choice(("\n", "\n", "\r\n"))
    s = rand_sep(rng, nl) if rng.random() < 0.3 else ""
    for i, w in enumerate(words):
        s += w
        glue = w == "{" and i + 1 < len(words) and words[i + 1] not in ("{", "include") and rng.random() < 0.5 or \
               i + 1 < len(words) and words[i + 1] == "}" and w != "}" and (i == 0 or words[i - 1] != "include") and rng.random() < 0.5
        if not glue: s += rand_sep(rng, nl) if i + 1 < len(words) or rng.random() < 0.7 else rng.choice(("", "%x", "% {", "%"))
    return s
def rand_fs(rng):
    """Files that include each other; mostly without cycles."""
    names = ["main.spf"] + rng.sample(["a", "b.spf", "sub/c.spf", "x-y_z.txt", "sub/deep/d", "./e", "include2", "f.f"], rng.randint(0, 5))
    fs = []
    for i, n in enumerate(names):
        ws = []
        for _ in range(rng.choice((0, 1, 3, 8, 25))):
            if rng.random() < 0.15 and (i + 1 < len(names) or rng.random() < 0.1):
                y = rng.random()
                ws += ["include", rng.choice(names[i + 1:] or ["nofile"]) if y < 0.94 else "nofile" if y < 0.97 else rng.choice(names)]
            else: ws.append(rand_word(rng))
        if i + 1 < len(names) and rng.random() < 0.5: ws = ws + ["include", names[i + 1]] + [rand_word(rng) for _ in range(rng.randint(0, 2))]
        if i == 0 and rng.random() < 0.03: ws.append("include")
        fs.append((n, rand_layout(rng, ws).encode()))
    return fs, "main.spf" if rng.random() < 0.98 else "nofile.spf"

def rle(ts):
    """Shortest repetition of a token list."""
    n = len(ts)
    for p in range(1, min(n, 64) + 1):
        if n % p == 0 and ts == ts[:p] * (n // p): return {"unit": [codes(t) for t in ts[:p]], "count": n // p}
    return {"unit": [codes(t) for t in ts[:300]] + [[0]], "count": n}

def p01(chk):
    rng = chk.rng
    chk.model("MCSpf", text=open(os.path.join(SPEC, "MCSpf.cfg")).read().replace("MaxLen = 5", "MaxLen = %d" % (6 if THOROUGH else 5)))
    jobs, recs = [], []
    # every short text, alone and between an include's neighbours
    al = b"a ,\n\r%{}\t"
    for n in range(1, (5 if THOROUGH else 4) + 1):
        for t in itertools.product(al, repeat=n): jobs.append(([("m", bytes(t))], "m"))
    for n in range(1, (4 if THOROUGH else 3) + 1):
        for t in itertools.product(b"a \n%{}", repeat=n):
            jobs.append(([("m", b"x include f" + rng.choice((b" y", b"\ny\n", b"%c\ny", b"", b"\n", b" include f"))), ("f", bytes(t))], "m"))
    for _ in range(4000 if THOROUGH else 500): jobs.append(rand_fs(rng))
    for depth in (1, 2, 5, 20, 60):     # chains
        fs = [("f%d" % i, rand_layout(rng, [rand_word(rng), "include", "f%d" % (i + 1), rand_word(rng)]).encode()) for i in range(depth)] + [("f%d" % depth, b"end")]
        jobs.append((fs, "f0"))
    for fs in ([("m", b"include m")], [("m", b"a include f b"), ("f", b"include m\n")], [("m", b"include f\ninclude f\n"), ("f", b"include g include g"), ("g", b"x\n")],
               [("m", b"include sub"), ("sub/x", b"y")], [("m", b"a\ninclude")], [("m", b"include % f\n")]): jobs.append((fs, "m"))
    for ln in (300, 1000, 2040, 4090, 5000, 8190, 9000) * (3 if THOROUGH else 1):     # longer files, the end of an include not a line end
        for end in (b"last", b"} %", b"last%x", b"include g"):
            lay = rand_layout(rng, [rand_word(rng) for _ in range(ln // 6)]).encode()[:ln - len(end)]
            lay = lay[:lay.rindex(b"\n") + 1] if b"\n" in lay else b""
            lay += b"%" + b"c" * (ln - len(end) - len(lay) - 2) + b"\n" if len(lay) < ln - len(end) - 1 else b""
            jobs.append(([("m", b"x include f" + rng.choice((b" y z", b"\ny\n", b"{ y }"))), ("f", lay + end), ("g", b"gg")], "m"))
    for (fs, name), r in zip(jobs, read_files(jobs)):
        rec = {"t": "read", "fs": [{"name": codes(n), "text": codes(t)} for n, t in fs], "name": codes(name)}
        rec.update({"rc": -9, "out": [], "note": r} if isinstance(r, str) else {"rc": r[0], "out": [codes(t) for t in r[1]]})
        rec["show"] = {n: t.decode(errors="replace") for n, t in fs}
        recs.append(rec)
    # long files around the limit
    bigs = []
    units = [b"a ", b"{a} ", b"{ a }\n", b"{} ", b"} ", b"{\n", b"abc,\t", b"a" * 70 + b" ", b"%xx\n", b"  \n", b"{x} y\n", b"SNR { 1 2 }\n"]
    for u in units:
        tot = outlen(u)
        marks = {60000 // max(len(u), tot or 1), 139999 // len(u), 140000 // len(u), 140001 // len(u) + 1, 200000 // len(u), 20000 // len(u)}
        if tot: marks |= {140000 // tot, 140000 // tot + 1, 139990 // tot, 140020 // tot}
        for c in sorted(marks): bigs.append([(u, c)])
        for c, d in ((1000, 28000), (20000, 9000), (34000, 34000), (1, 140000 // len(u) - 1), (1, 140000 // len(u) + 1), (70000 // len(u), 69900 // len(u))): bigs.append([(u, c), (u, d)])
        bigs.append([(u, 1000 // len(u) + 1), (rng.choice(units), 200), (rng.choice(units), 100), (u, 30000 // max(len(u), tot))])
    for off in range(1, 9):       # ends at and around the very limit
        for v in (b"{a} ", b"a} ", b"{ ", b"ab "):
            tot = outlen(v)
            for c in ((140000 - off - 1) // tot - 1, (140000 - off - 1) // tot, (140000 - off - 1) // tot + 1): bigs.append([(b"b" * off + b"\n", 1), (v, c)])
    for c in (139000, 139998, 139999, 140000, 500000): bigs.append([(b"a\n", 1), (b"%" * c + b"\n", 1)])   # a long comment
    for u in (b" ", b"\n\n", b"a "): bigs += [[(u, 100000 // len(u))] * n for n in (2, 3, 4, 6)] + [[(u, 15000 // len(u))] * 3]
    bj = [([("m" if i == 0 else "f%d" % i, u * c + (b"include f%d " % (i + 1) if i + 1 < len(ps) else b"")) for i, (u, c) in enumerate(ps)], "m") for ps in bigs]
    for ps, r in zip(bigs, read_files(bj)):
        rec = {"t": "big", "parts": [{"unit": codes(u), "count": c} for u, c in ps], "rc": -9, "out": []}
        if isinstance(r, str): rec["note"] = r
        else:
            rec["rc"] = r[0]
            if r[0] == 0:
                k = 0
                for i, (u, c) in enumerate(ps):
                    a = len(SPLIT(u)) * c
                    rec["out"].append(rle(r[1][k:k + a] if i + 1 < len(ps) else r[1][k:])); k += a
        recs.append(rec)
    for i, r in enumerate(recs): r["id"] = i + 1
    bad = chk.validate("TraceSpf", recs, what="parameter files")
    for b in bad[:6]:
        chk.violation("a parameter file is not read as its tokens: %s" % json.dumps({k: b[k] for k in ("show", "rc", "note") if k in b} | {"parts": [[bytes(p["unit"][:40]).decode(errors="replace"), p["count"]] for p in b.get("parts", [])]})[:500] + " -> " + (str([bytes(t) for t in b["out"]])[:300] if b["t"] == "read" else ""), shorten(b, 400))

def outlen(u): return sum(len(t) + 1 for t in SPLIT(u))
def SPLIT(u): return re.sub(rb"%[^\n]*", b"", u).replace(b"{", b" { ").replace(b"}", b" } ").replace(b",", b" ").split()

CHECKS = {"P01": p01}
