"""Checks of the codecs (C*, D*)."""
import itertools, math
from decimal import Decimal as D
from common import *
from codes import *

def sigma(rng): return rng.choice([1.0, 0.5, 0.7, 2.0, rng.uniform(0.05, 0.4), rng.uniform(3, 30)])

def decode_records(codec, jobs, rid0=1):
    """jobs: list of (Cfg, [ (weights, sigma) ]).  Runs the real decoder and returns records."""
    cases = []
    for cfg, ins in jobs:
        c = ["init 0 " + cfg.params(), "csnrn 0 %d" % (len(cases) % 11)]
        for w, sg in ins:
            c += ["sg 0 " + hexf(sg), "dec 0 " + " ".join(hexf(v) for v in llr_input(w, sg))]
        cases.append(c)
    recs = []
    for (cfg, ins), ans in zip(jobs, run_codec_cases(codec, cases)):
        why = ans[-1][1] if ans and ans[-1][0] == "CRASH" else ""
        decs = [a for a in ans if a[0] == "dec"]
        for i, (w, sg) in enumerate(ins):
            if i < len(decs):
                a = decs[i]
                recs.append(cfg.rec(id=rid0 + len(recs), y=w, rc=int(a[1]), x=blist(a[2]), k=cfg.k, sg=sg, note="", nth=i, params=cfg.params()))
            else:
                if i == len(decs):
                    recs.append(cfg.rec(id=rid0 + len(recs), y=w, rc=-99, x=[0] * cfg.k, k=cfg.k, sg=sg, note=why or "no answer: %s" % ans[:1], params=cfg.params()))
                break
    return recs

def report(chk, bad, what):
    for r in bad:
        chk.violation("%s: codec=%s params=[%s] rc=%s x=%s %s" % (what, r.get("codec"), r.get("params"), r.get("rc"), bstr(r.get("x", [])), r.get("note", "")), r)

def unsure(b):
    """No answer because of a time limit or a kill from outside, not of the code's own making."""
    return bool(re.search(r"\b(timeout|short output|None): |(?<!\d)-9: ", str(b.get("note", ""))))

def confirm(chk, module, bad, codec, redo):
    """A rejected record counts as it is: what earlier calls left behind may be the reason.  Only when
    the process ran out of time or was killed is the input run again."""
    sure, rest = [b for b in bad if not unsure(b)], [b for b in bad if unsure(b)][:10]
    if not rest: return sure
    again = redo(rest)
    rej = {r["id"] for r in chk.validate(module, again, what="re-run")}
    return sure + [b for b, a in zip(rest, again) if a["id"] in rej]

def redo_dec(codec):
    def f(bad):
        out = []
        for b in bad[:10]:
            cfg = Cfg(codec, b["m"], b["r"], b["mask"], b["L"], b["perms"] if len(b["perms"]) > 1 or b.get("hasperms") else None, bstr(b["crc"]))
            rs = decode_records(codec, [(cfg, [(b["y"], b["sg"])])], b["id"])
            out += rs[:1]
        return out
    return f

def inputs(rng, cfg, num, spread=1.0):
    res = []
    for i in range(num):
        word = None
        if i % 3 == 1: word = bits(rng, cfg.n) if cfg.n < 4 else [0] * cfg.n
        res.append((weights(rng, cfg.n, word, rng.choice((0.05, 0.2, 0.35)), rng.choice((spread, spread, 0.3 * spread))), sigma(rng)))
    return res

def all_rm(maxm, rmax=lambda m: m): return [(m, r) for m in range(1, maxm + 1) for r in range(1, rmax(m) + 1)]

MODEL_DEC = {
 "rm0": "SPECIFICATION Spec\nCONSTANTS Kind = \"rm0\" M = 2 R = 1 Vals <- V3\nINVARIANTS PathLikelihood ListSize Final Four\nCHECK_DEADLOCK FALSE\n",
 "rm1": "SPECIFICATION Spec\nCONSTANTS Kind = \"rm1\" M = 2 R = 1 Vals <- V3\nINVARIANTS PathLikelihood ListSize Final Four\nCHECK_DEADLOCK FALSE\n",
 "polar": "SPECIFICATION Spec\nCONSTANTS Kind = \"polar\" M = 2 R = 0 Vals <- V2\nINVARIANTS PathLikelihood ListSize Final Four\nCHECK_DEADLOCK FALSE\n",
}
def awgn_weights(rng, n, snr):
    """Exact likelihood pairs as a channel at amplitude/noise ratio snr gives them for the zero word."""
    out = []
    for _ in range(n):
        l = max(-9, min(9, 2 * snr * snr * (1 + rng.gauss(0, 1) / snr)))
        b = rng.randint(1000, 9999)
        out.append([max(1, round(b * math.exp(l))), b] if l > 0 else [b, max(1, round(b * math.exp(-l)))])
    return out

def long_jobs(rng, what, num):
    """Codes of realistic length.  The noise is such that the reliabilities of the combined symbols
    that matter are neither clipped nor vanish."""
    jobs = []
    for i in range(num):
        m = rng.choice((6, 7, 8)); n = 1 << m
        if what in ("polar", "crc"):
            order = sorted(range(n), key=lambda i: bin(i).count("1") + rng.random() * .8 + 0.3 * i / n)
            mask = [0] * n
            for j in order[-rng.randint(n // 4, n // 2):]: mask[j] = 1
            cfg = Cfg("ca_polar_scl", m, 0, mask, rng.choice((2, 4, 8)), crc=bstr(bits(rng, rng.choice((4, 6, 8)))) if what == "crc" else "")
        elif what in ("glp", "perm"):
            r = rng.choice((2, 3, 2, 3, 1))
            if r == 1: m = rng.choice((7, 8, 9)); n = 1 << m
            lv = leaves("rm0", m, r)
            cfg = Cfg("dtrm_glp", m, r, [1] * len(lv) if what == "perm" or rng.random() < .5 and r > 1 else rand_mask(rng, lv, .8 if r > 1 else .6), rng.choice((2, 4, 8)),
                      perms=[rand_perm(rng, m) for _ in range(3)] if what == "perm" else None)
        else: cfg = Cfg(what, m, rng.randint(1, 4))
        if what in ("polar", "crc"): snr = rng.choice((0.35, 0.45, 0.55))
        else: snr = rng.choice((0.5, 0.65, 0.8)) / math.sqrt((1 << (m - cfg.r)) / 4)   # that many symbols are added up at the last node
        jobs.append((cfg, [(awgn_weights(rng, n, snr), sigma(rng))]))
    return jobs

def pick(jobs, keep):
    """jobs: [(cfg, many inputs)] -> the same with `keep` inputs each: those where a list decoder with
    one of its steps changed decides otherwise (harness/pick.c), of as many changes as possible."""
    exe = os.path.join(WORK, "pick")
    if not os.path.exists(exe):
        rc, out = sh(["gcc", "-O2", "-w", "-o", exe, os.path.join(VERIF, "harness", "pick.c"), "-lm"])
        if rc: raise Infra("pick: " + out)
    def one(js):
        f, o = tmpname(), tmpname()
        with open(f, "w") as h:
            for c, ins in js:
                ps = c.perms or [list(range(c.m))]
                h.write("cfg %s %d %d %d %s %d %s %s\n" % (c.kind, c.m, c.r, c.L, bstr(c.mask), len(ps), " ".join(str(x) for q in ps for x in q), c.crc or "-"))
                for w, _ in ins: h.write("y " + " ".join("%.9f" % math.log(a / b) for a, b in w) + "\n")
        rc, out = run_proc(["/bin/sh", "-c", 'exec "$0" < "$1" > "$2"', exe, f, o], timeout=300)
        res, ls = [], open(o).read().split("\n") if rc == 0 else []
        os.unlink(f); os.unlink(o)
        for c, ins in js:
            rows = ls[1:1 + len(ins)]; ls = ls[1 + len(ins):]
            if len(rows) < len(ins): res.append((c, ins[:keep])); continue
            seen, sel = [0] * len(rows[0]), []
            while len(sel) < keep:
                def val(i): return sum(1 / (1 + 4 * seen[j]) for j, b in enumerate(rows[i]) if b == "1") if i not in sel else -1
                i = max(range(len(ins)), key=val)
                if i in sel: break
                sel.append(i)
                for j, b in enumerate(rows[i]): seen[j] += b == "1"
            res.append((c, [ins[i] for i in sel]))
        return res
    ch = [jobs[i::16] for i in range(16)]
    out = [None] * len(jobs)
    for i, rs in enumerate(parallel(one, ch)): out[i::16] = rs
    return out

def keen_jobs(rng, what, num):
    """Inputs that depend on every step of the decoder, out of many."""
    jobs = []
    for _ in range(num):
        if what in ("polar", "crc"):
            m = rng.choice((3, 4, 4, 5, 6)); n = 1 << m
            order = sorted(range(n), key=lambda i: bin(i).count("1") + rng.random() * 1.2 + .3 * i / n)
            mask = [0] * n
            for i in order[-rng.randint(max(3, n // 3), n if m < 4 else 3 * n // 4):]: mask[i] = 1
            L = rng.choice((2, 3, 4, 5, 7, 8, 12, 16, 24, 33, 48) if m < 5 else (2, 3, 4, 5, 8))
            if len(jobs) % 5 == 0:   # large lists, frozen positions after they are full
                m = rng.choice((4, 4, 5)); n = 1 << m
                L = rng.choice((24, 33, 48, 64, 100)); mask = [1] * n
                order = sorted(range(n), key=lambda i: bin(i).count("1") + rng.random() * 2.5)
                for i in order[:rng.randint(2, n // 2 - 2 if m < 5 else 15)]: mask[i] = 0
            crc = bstr(bits(rng, min(sum(mask) // 2, rng.randint(2, 6)))) if what == "crc" else ""
            cfg = Cfg("ca_polar_scl", m, 0, mask, L, crc=crc)
            def inp(): return awgn_weights(rng, n, rng.uniform(.4, 1) * 2.6 / math.sqrt(n))
        else:
            m = rng.choice((3, 4, 4, 5, 5, 6)); n = 1 << m
            r = rng.choice((1, m - 1, m - 1, m - 2, rng.randint(1, m - 1))) if m > 2 else 1
            r = max(r, 1)
            lv = leaves("rm0", m, r)
            mask = [1] * len(lv) if what == "perm" or rng.random() < .6 else rand_mask(rng, lv, .8)
            if what == "glp" and m > 3 and len(jobs) % 2:   # the candidates of full space nodes
                r = rng.randint(2, m - 1)
                if rng.random() < .25: m = rng.choice((6, 6, 7)); n = 1 << m; r = m - 1
                lv = leaves("rm0", m, r)
                full = [i for i, l in enumerate(lv[:-1]) if l[0] == "full" and l[1] > 1]
                mask = [0] * len(lv)
                for i in rng.sample(full, min(len(full), rng.choice((1, 1, 2)))) + rng.sample(range(len(lv)), rng.choice((0, 1, 1, 2))): mask[i] = 1
            ps = None
            if what == "perm":
                ps = [rand_perm(rng, m) for _ in range(rng.choice((2, 3, 5, 8)))]
            L = rng.choice((2, 3, 4, 5, 7, 8, 12, 24, 33) if m < 5 else (2, 3, 4, 6))
            if len(jobs) % 3 == 0:   # large lists, zeroed leaves after they are full
                m = rng.choice((4, 5)) if what == "glp" else 4; n = 1 << m; r = rng.randint(2, m - 1)
                L = rng.choice((24, 33, 48, 64, 100))
                lv = leaves("rm0", m, r); mask = [1] * len(lv)
                if what != "perm":
                    late = [i for i in range(len(lv)) if i > 4]   # mostly those
                    for i in rng.sample(late, min(len(late), rng.randint(1, 4))) + rng.sample(range(len(lv)), rng.randint(0, 1)): mask[i] = 0
                if ps: ps = [rand_perm(rng, m) for _ in ps]
            if not any(mask): mask[-1] = 1
            cfg = Cfg("dtrm_glp", m, r, mask, L, perms=ps)
            lim = min(9.2, MAXSUM / (1 << (m - r)))
            def inp():
                word = [0] * n if rng.random() < .7 else None
                fl, sp, out = rng.choice((.1, .2, .3)), rng.choice((1, .5)), []
                for j in range(n):
                    l = lim * sp * rng.random() ** rng.choice((1, 2)); b = rng.randint(1000, 9999)
                    a = min(99999999, max(1, round(b * math.exp(l))))
                    out.append([b, a] if (rng.random() < .5 if word is None else rng.random() < fl) else [a, b])
                return out
        jobs.append((cfg, [(inp(), sigma(rng)) for _ in range((120 if m < 5 else 60 if m < 6 else 60 if cfg.r == m - 1 else 30) * (5 if what == "glp" and len(jobs) % 2 else 1))]))
    return pick(jobs, 5)

def run_dec(chk, codec, jobs, what):
    recs = decode_records(codec, jobs)
    bad = chk.validate("TraceDec", recs, what="decoding")
    if bad: report(chk, confirm(chk, "TraceDec", bad, codec, redo_dec(codec)), what)
    chk.extra.setdefault("configurations", 0); chk.extra["configurations"] += len(jobs)

def d01(chk):
    rng = chk.rng
    chk.model("MCListDecV", text=MODEL_DEC["rm0"])
    T = 3 if THOROUGH else 1
    jobs = []
    for m, r in all_rm(6 if THOROUGH else 5):
        cfg = Cfg("dtrm0", m, r)
        jobs.append((cfg, inputs(rng, cfg, {1: 6, 2: 20, 3: 40, 4: 40, 5: 12, 6: 6}[m] * T)))
    jobs += long_jobs(rng, "dtrm0", 1500 if THOROUGH else 300)
    run_dec(chk, "dtrm0", jobs, "dtrm0 does not decide as its recursion requires")


def d03_jobs(rng, T, crc=False):
    jobs = []
    for m, num in ((1, 6), (2, 14), (3, 40), (4, 30), (5, 8)) + (((6, 12),) if THOROUGH else ()):
        for _ in range(num * T):
            n = 1 << m
            lv = leaves("polar", m, 0)
            mask = rand_mask(rng, lv, rng.choice((0.4, 0.6, 0.8, 1.0)))
            if m > 4 or rng.random() < 0.4:        # realistic: later positions are the reliable ones
                order = sorted(range(n), key=lambda i: bin(i).count("1") + rng.random())
                kk = rng.randint(1, n) if m <= 4 else rng.randint(4, n // 2)
                mask = [0] * n
                for i in order[-kk:]: mask[i] = 1
            L = rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 16, 32) if m <= 4 else (1, 2, 3, 4, 5, 8))
            c = ""
            if crc:
                kf = sum(mask)
                if kf < 2: continue
                g = rng.randint(1, min(6, kf // 2))
                c = bstr([rng.randint(0, 1) for _ in range(g)])
            if L > 16 and m > 3: L = 16
            cfg = Cfg("ca_polar_scl", m, 0, mask, L, crc=c, perms=[list(range(m))] if rng.random() < 0.1 else None)
            jobs.append((cfg, inputs(rng, cfg, 5 if m <= 4 else 2)))
    return jobs

def big_list_jobs(rng, what, num):
    """Lists larger than usual, also larger than all there is to list."""
    jobs = []
    for _ in range(num):
        m = rng.choice((3, 4, 4)); n = 1 << m
        L = rng.choice((33, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257))
        if what in ("polar", "crc"):
            order = sorted(range(n), key=lambda i: bin(i).count("1") + rng.random())
            mask = [0] * n
            for i in order[-rng.randint(max(n // 2, 5), n if m == 3 else 13):]: mask[i] = 1
            crc = bstr(bits(rng, min(sum(mask) // 2, rng.randint(1, 7)))) if what == "crc" else ""
            cfg = Cfg("ca_polar_scl", m, 0, mask, L, crc=crc)
        else:
            r = rng.randint(1, m - 1) if m == 3 else rng.choice((2, 2, 3))
            lv = leaves("rm0", m, r)
            ps = None
            if what == "perm":
                ps = [list(p) for p in itertools.permutations(range(m))]; rng.shuffle(ps)
                ps = ps[:rng.choice((6, 7, 12, 16, 17, 24))]
                L = rng.choice((1, 4, 16, 24, 25, 32, 33, 64))
            cfg = Cfg("dtrm_glp", m, r, [1] * len(lv) if ps or rng.random() < .7 else rand_mask(rng, lv, .8), L, perms=ps)
        jobs.append((cfg, inputs(rng, cfg, 2)))
    for _ in range(num if what == "crc" else 0):   # the candidate with the right check bits may be anywhere in the list
        L = rng.choice((8, 12, 16, 20, 32, 40)); mask = [0] * 16
        order = sorted(range(16), key=lambda i: bin(i).count("1") + 2 * rng.random())
        for i in order[-rng.randint(10, 15):]: mask[i] = 1
        cfg = Cfg("ca_polar_scl", 4, 0, mask, L, crc=bstr(bits(rng, rng.choice((3, 4, 5)))))
        jobs.append((cfg, inputs(rng, cfg, 6)))
    return jobs

def d03(chk):
    chk.model("MCListDecV", text=MODEL_DEC["polar"])
    run_dec(chk, "ca_polar_scl", d03_jobs(chk.rng, 4 if THOROUGH else 1) + big_list_jobs(chk.rng, "polar", 120 if THOROUGH else 30) + long_jobs(chk.rng, "polar", 200 if THOROUGH else 40) + keen_jobs(chk.rng, "polar", 200 if THOROUGH else 40), "polar list decoding does not keep/return the L best paths")

def d04(chk):
    chk.model("MCCrc", "MCCrc.cfg")
    run_dec(chk, "ca_polar_scl", d03_jobs(chk.rng, 4 if THOROUGH else 1, True) + big_list_jobs(chk.rng, "crc", 120 if THOROUGH else 30) + long_jobs(chk.rng, "crc", 200 if THOROUGH else 40) + keen_jobs(chk.rng, "crc", 200 if THOROUGH else 40), "CRC-aided selection")

def d05_jobs(rng, T, perms=False):
    jobs = []
    for m, num in ((2, 8), (3, 36), (4, 36), (5, 10)) + (((6, 8),) if THOROUGH else ()):
        for _ in range(num * T):
            r = rng.randint(1, m - 1)
            lv = leaves("rm0", m, r)
            mask = [1] * len(lv) if perms or rng.random() < 0.35 else rand_mask(rng, lv, rng.choice((0.4, 0.7, 0.9)))
            L = rng.choice((1, 1, 2, 3, 4, 5, 6, 7, 8, 16, 32) if m <= 4 else (1, 2, 3, 4, 5, 8))
            if perms: L = rng.choice((1, 2, 3, 4, 5, 6, 8, 12))
            extra = []
            Leff = L
            if not perms and rng.random() < 0.12:
                # variable list: the thresholds decide which size is used
                sizes = [rng.choice((1, 2, 3, 4, 6)) for _ in range(3)]
                stop = rng.randrange(3)
                extra = ["use_variable_list", "on", "distance_threshold", "{"]
                for i, s in enumerate(sizes): extra += [s, "1e30" if i == stop else "-1"]
                extra += ["}"]
                Leff = sizes[stop]
            ps = None
            if perms:
                k = rng.choice((1, 2, 2, 3, 4, 5, 6))
                ps = []
                while len(ps) < k:
                    p = rand_perm(rng, m)
                    if p not in ps or len(ps) >= math.factorial(m): ps.append(p)
            cfg = Cfg("dtrm_glp", m, r, mask, L, perms=ps, extra=extra)
            if m == 5 and cfg.k > 20 and L > 4: cfg.L, Leff = 4, Leff if extra else 4
            ins = inputs(rng, cfg, (3 if perms else 5) if m <= 4 else 2)
            cfg.Leff = Leff
            jobs.append((cfg, ins))
    return jobs

def d05_full_jobs(rng, T):
    """Full space nodes (their four candidates) whose choice shows: followed by other nodes."""
    jobs = []
    for m, r, num in ((4, 3, 16), (5, 3, 4), (5, 4, 4)):
        for _ in range(num * T):
            lv = leaves("rm0", m, r)
            full = [i for i, l in enumerate(lv[:-1]) if l[0] == "full" and l[1] > 1]
            mask = [0] * len(lv)
            for i in rng.sample(full, rng.choice((1, 1, 2)) if len(full) > 1 else 1): mask[i] = 1
            for i in rng.sample(range(len(lv)), rng.choice((0, 1, 2, 3))): mask[i] = 1
            cfg = Cfg("dtrm_glp", m, r, mask, rng.choice((2, 3, 4, 5, 6)))
            jobs.append((cfg, inputs(rng, cfg, 8 if m == 4 else 4, 0.5)))
    return jobs

def d05(chk):
    chk.model("MCListDecV", text=MODEL_DEC["rm0"])
    jobs = d05_jobs(chk.rng, 4 if THOROUGH else 1) + big_list_jobs(chk.rng, "glp", 120 if THOROUGH else 30) + d05_full_jobs(chk.rng, 4 if THOROUGH else 1) + long_jobs(chk.rng, "glp", 600 if THOROUGH else 150) + keen_jobs(chk.rng, "glp", 400 if THOROUGH else 80)
    run_glp(chk, jobs, "RM list decoding does not keep/return the L best candidates")

def run_glp(chk, jobs, what):
    # The real decoder gets the configured list size, the specification the effective one.
    recs = decode_records("dtrm_glp", jobs)
    def eff(rs, jobs):
        byp = {c.params(): getattr(c, "Leff", c.L) for c, _ in jobs}
        return [dict(r, L=byp[r["params"]]) for r in rs]
    bad = chk.validate("TraceDec", eff(recs, jobs), what="decoding")
    def redo(bad):
        out = []
        for b in bad[:10]:
            cfg, = [c for c, _ in jobs if c.params() == b["params"]][:1]
            out += eff(decode_records("dtrm_glp", [(cfg, [(b["y"], b["sg"])])], b["id"])[:1], jobs)
        return out
    if bad: report(chk, confirm(chk, "TraceDec", bad, "dtrm_glp", redo), what)
    chk.extra["configurations"] = chk.extra.get("configurations", 0) + len(jobs)

def d06(chk):
    chk.model("MCListDecV", text=MODEL_DEC["rm0"])
    run_glp(chk, d05_jobs(chk.rng, 3 if THOROUGH else 1, True) + big_list_jobs(chk.rng, "perm", 120 if THOROUGH else 30) + long_jobs(chk.rng, "perm", 300 if THOROUGH else 50) + keen_jobs(chk.rng, "perm", 200 if THOROUGH else 40), "permutation decoding")


def d11(chk):
    """Variable list."""
    rng = chk.rng
    chk.model("MCListDecV", text=MODEL_DEC["rm0"])
    T = 4 if THOROUGH else 1
    jobs, plan, tries = [], [], {}   # tries: by parameter text
    for m, num in ((2, 14), (3, 50), (4, 40), (5, 16)):
        for _ in range(num * T):
            r = rng.randint(1, m - 1)
            lv = leaves("rm0", m, r)
            perms = rng.random() < 0.25
            mask = [1] * len(lv) if perms or rng.random() < 0.3 else rand_mask(rng, lv, rng.choice((0.4, 0.7, 0.9)))
            ps = None
            if perms:
                ps = []
                while len(ps) < min(rng.choice((1, 2, 3)), math.factorial(m)):
                    p = rand_perm(rng, m)
                    if p not in ps: ps.append(p)
            L = rng.choice((1, 2, 4, 8))
            cfg = Cfg("dtrm_glp", m, r, mask, L, perms=ps)
            sizes = sorted(rng.choice((1, 1, 2, 3, 4, 6, 8) if m <= 4 else (1, 2, 3, 4)) for _ in range(rng.choice((1, 2, 2, 3, 4))))
            x = rng.random()
            if x < 0.2: sizes.reverse()
            elif x < 0.4: rng.shuffle(sizes)
            sg = rng.choice((0.5, 0.7, 1.0, rng.uniform(0.3, 1.2)))
            ins = [(w, sg) for w, _ in inputs(rng, cfg, 5 if m <= 4 else 2)]
            # thresholds around what can occur for the first vector
            y = llr_input(ins[0][0], sg)
            near = sum((abs(v) - 1) ** 2 for v in y) / sg ** 2
            thr = ["%.5f" % rng.choice((near + rng.uniform(-1, 5), near + rng.uniform(0, 20), near * rng.uniform(0.5, 2), near + rng.uniform(0, 2))) for _ in sizes]
            for j in range(len(thr)):
                if rng.random() < 0.1: thr[j] = rng.choice(("0", "-1", "1e9", "100000", "-0.5"))
            plan.append((cfg, sizes, thr, ins))
    # thresholds right at the distances that occur: what each list size decides alone
    alone = [(c, i, s) for c, sizes, _, _ in plan for i, s in enumerate(sizes)]
    recs = decode_records("dtrm_glp", [(Cfg("dtrm_glp", c.m, c.r, c.mask, s, perms=c.perms), sel[:1]) for (c, sizes, thr, sel) in plan for s in sizes])
    words_ = enc_all([(cfg_of(r), [r["x"]]) for r in recs]) if len(recs) == len(alone) else []
    dist = [sum((v - (1 if b == "1" else -1)) ** 2 for v, b in zip(llr_input(r["y"], r["sg"]), e[1][2])) / r["sg"] ** 2 if len(e) > 1 and len(e[1]) > 2 else None for r, e in zip(recs, words_)]
    j = 0
    for cfg, sizes, thr, ins in plan:
        ds = dist[j:j + len(sizes)]; j += len(sizes)
        for i, d in enumerate(ds):
            if d and d < 20000 and rng.random() < 0.5: thr[i] = "%.5f" % (d * (1 + rng.choice((-1, 1)) * rng.choice((1e-2, 1e-3, 1e-4, 2e-5))))
        words = ["use_variable_list", "on"], ["distance_threshold", "{"] + [w for p in zip(sizes, thr) for w in p] + ["}"]
        cfg.extra = (words[0] + words[1]) if rng.random() < 0.5 else (words[1] + words[0])
        tries[cfg.params()] = [{"L": s, "neg": t.startswith("-"), "M": 10**9 if t == "1e9" else abs(int(D(t) * 100000)), "e": 0 if t == "1e9" else 5} for s, t in zip(sizes, thr)]
        jobs.append((cfg, ins))
    if not dist: chk.extra["no_distances"] = 1
    def add(recs):
        return [dict(r, L=0, tries=tries[r["params"]], yf=[round(v * 2**26) for v in llr_input(r["y"], r["sg"])], s2=round(r["sg"] ** 2 * 2**26)) for r in recs]
    recs = add(decode_records("dtrm_glp", jobs))
    bad = chk.validate("TraceVar", recs, what="decoding with a variable list")
    # what one call left behind may matter for the next: a record counts as it is
    report(chk, bad, "variable list decoding")
    chk.extra["configurations"] = len(jobs)
    # how often the thresholds decided
    chk.extra["records_with_several_tries"] = sum(len(r["tries"]) > 1 for r in recs)

# ---------------------------------------------------------------- single calls (TraceCode)
def judge(chk, recs, what, redo=None):
    """Validates single-call records; rejected ones are re-run (redo: list -> list) and reported."""
    for i, r in enumerate(recs): r["id"] = i + 1
    bad = chk.validate("TraceCode", recs, what=what)
    if redo:   # see confirm()
        rest = [b for b in bad if unsure(b)][:12]
        bad = [b for b in bad if not unsure(b)]
        if rest:
            again = redo(rest)
            for i, r in enumerate(again): r["id"] = i + 1
            rej = {r["id"] for r in chk.validate("TraceCode", again, what="re-run")}
            bad += [b for i, b in enumerate(rest) if i + 1 in rej]
    for b in bad[:12]:
        chk.violation("%s: %s" % (what, json.dumps({k: v for k, v in b.items() if k not in ("y", "y1", "y2")})[:900]), b)
    return bad

def code_cfgs(rng, T, big=True):
    out = []
    for m, r in all_rm(7):
        out += [Cfg("dtrm0", m, r), Cfg("dtrm1", m, r)]
        if r < m:
            lv = leaves("rm0", m, r)
            out.append(Cfg("dtrm_glp", m, r, L=rng.choice((1, 2, 4))))
            for _ in range(3 * T):
                mask = rand_mask(rng, lv, rng.choice((0.3, 0.5, 0.8)))
                if rng.random() < 0.3: mask = mask + bits(rng, rng.randint(1, 4))  # longer masks are accepted
                out.append(Cfg("dtrm_glp", m, r, mask, L=rng.choice((1, 2, 3, 4))))
    for m in range(1, 8):
        for _ in range(6 * T):
            mask = rand_mask(rng, leaves("polar", m, 0), rng.choice((0.3, 0.5, 0.8)))
            kf = sum(mask); crc = ""
            if kf >= 2 and rng.random() < 0.6: crc = bstr(bits(rng, rng.randint(1, min(12, kf // 2))))
            out.append(Cfg("ca_polar_scl", m, 0, mask, L=rng.choice((1, 2, 4, 5)), crc=crc))
    if big:
        for m, r in ((8, 2), (8, 3), (9, 2)): out += [Cfg("dtrm0", m, r), Cfg("dtrm1", m, r), Cfg("dtrm_glp", m, r, L=2)]
        for m in (8, 9):
            mask = [1 if bin(i).count("1") >= 5 else 0 for i in range(1 << m)]
            out.append(Cfg("ca_polar_scl", m, 0, mask, L=2, crc="10010111"))
        # long codes, a few of them
        for _ in range(8 * T):
            m = rng.choice((8, 9, 10, 10, 11, 12)); r = rng.choice((1, 2, rng.randint(1, m), m - 1, m - 2))
            out.append(Cfg(rng.choice(("dtrm0", "dtrm1")), m, r))
            r = rng.choice((1, 2, m - 1, rng.randint(1, m - 1)))
            out.append(Cfg("dtrm_glp", m, r, rand_mask(rng, leaves("rm0", m, r), 0.7) if rng.random() < 0.5 else None, L=rng.choice((1, 2, 9))))
            m = rng.choice((8, 9, 10, 10, 11, 12)); n = 1 << m; mask = [0] * n
            order = sorted(range(n), key=lambda i: bin(i).count("1") + rng.random())
            for i in order[-rng.randint(n // 8, n - 1):]: mask[i] = 1
            out.append(Cfg("ca_polar_scl", m, 0, mask, L=rng.choice((1, 2, 9)), crc=bstr(bits(rng, min(sum(mask) // 2, rng.choice((0, 8, 16, 24, 32, 33)))))))
        # very long ones, of few message bits
        out += [Cfg("dtrm0", 16, 1), Cfg("dtrm1", rng.choice((15, 16)), 1), Cfg("dtrm0", 13, 2), Cfg("dtrm1", 13, 2), Cfg("dtrm_glp", 16, 1, L=3), Cfg("dtrm_glp", 13, 2, rand_mask(rng, leaves("rm0", 13, 2), 0.7), L=2)]
        for m in (14, 16):
            mask = [0] * (1 << m)
            for i in rng.sample([i for i in range(1 << m) if bin(i).count("1") >= m - 2], 40): mask[i] = 1
            out.append(Cfg("ca_polar_scl", m, 0, mask, L=3, crc=bstr(bits(rng, rng.choice((0, 16, 20))))))
    return out

def enc_all(cfgs_msgs):
    """[(cfg, [msgs])] -> per cfg (n, k, init rc, [(rc, word) or CRASH text])"""
    by = {}
    for i, (cfg, ms) in enumerate(cfgs_msgs): by.setdefault(cfg.codec, []).append(i)
    out = [None] * len(cfgs_msgs)
    for codec, ix in by.items():
        A = run_codec_cases(codec, [["init 0 " + cfgs_msgs[i][0].params()] + ["enc 0 " + bstr(x) for x in cfgs_msgs[i][1]] for i in ix])
        for i, a in zip(ix, A): out[i] = a
    return out

def messages(rng, k, num):
    if k <= 5: return [list(t) for t in itertools.product((0, 1), repeat=k)]
    ms = [[0] * k, [1] * k] + [[1 if j == i else 0 for j in range(k)] for i in (rng.sample(range(k), min(k, num // 2)))]
    while len(ms) < num + 2: ms.append(bits(rng, k))
    return ms

def enc_recs(cfgs_msgs):
    recs = []
    for (cfg, ms), a in zip(cfgs_msgs, enc_all(cfgs_msgs)):
        ini = a[0] if a and a[0][0] == "init" else ["init", "-99", "0", "0"]
        encs = [x for x in a if x[0] == "enc"]
        for i, x in enumerate(ms):
            crashed = i >= len(encs)
            recs.append(cfg.rec(t="enc", params=cfg.params(), n=int(ini[2]), k=int(ini[3]), x=x,
                                c=[] if crashed else blist(encs[i][2]), note=str(a[-1][1]) if crashed else ""))
            if crashed: break
    return recs

def c01(chk):
    rng = chk.rng
    chk.model("MCRMCode", "MCRMCode.cfg")
    T = 3 if THOROUGH else 1
    jobs = [(c, messages(rng, c.k, 10 if c.m < 9 else 1)) for c in code_cfgs(rng, T) if c.k >= 1]
    recs = enc_recs(jobs)
    def redo(bad): return [enc_recs([(cfg_of(b), [b["x"]])])[0] for b in bad]
    judge(chk, recs, "encoder does not produce the documented code", redo)
    # linearity on the words of the real encoder
    lin, triples = [], []
    for cfg, ms in jobs:
        x1, x2 = bits(rng, cfg.k), bits(rng, cfg.k)
        triples.append((cfg, [x1, x2, [a ^ b for a, b in zip(x1, x2)]]))
    def linrecs(ts):
        return [{"t": "lin", "codec": c.codec, "params": c.params(), "x1": ms[0], "x2": ms[1], "x3": ms[2],
                 "c1": w[0], "c2": w[1], "c3": w[2]} for (c, ms), a in zip(ts, enc_all(ts))
                for w in [[blist(e[2]) for e in a if e[0] == "enc"] + [[], [9], []]]]
    judge(chk, linrecs(triples), "encoder is not linear")
    chk.extra["configurations"] = len(jobs)

def cfg_of(b):
    return Cfg(b["codec"], b["m"], b["r"], b["mask"], b["L"], b["perms"] if len(b["perms"]) > 1 else None, bstr(b["crc"]))

def c02(chk):
    rng = chk.rng
    chk.model("MCCrc", "MCCrc.cfg")
    exe = link("drv_crc", ["crc_driver.c"], crc_objs())
    cases = []
    for g in range(1, 5):
        for gen in itertools.product((0, 1), repeat=g):
            for l in range(g, g + 4):
                for x in ([tuple(rng.randint(0, 1) for _ in range(l)) for _ in range(3)] + [(1,) + (0,) * (l - 1), (1,) * l]): cases.append((gen, x))
    for _ in range(300 if THOROUGH else 120):
        g = rng.choice((rng.randint(1, 24), rng.randint(1, 24), 32, 33, rng.randint(25, 130))); gen = bits(rng, g)
        cases.append((gen, bits(rng, rng.randint(g, 4 * g + 20))))
    def run(cs):
        fin, fout = tmpname(), tmpname()
        with open(fin, "w") as f:
            for op, gen, x in cs: f.write("%s %s %s\n" % (op, bstr(gen), bstr(x)))
        rc, out = run_proc([exe, fin, fout])
        res = [l.split() for l in open(fout).read().splitlines()]
        while len(res) < len(cs): res.append(["-99", "", crash_text(out)])
        return res
    ops = [("calc", g, x) for g, x in cases]
    rem = run(ops)
    ops2 = []
    for (op, g, x), r in zip(ops, rem):
        good = blist(r[1]) if len(r[1]) == len(g) else [0] * len(g)
        w = list(x) + good
        ops2.append(("valid", g, w))
        v = list(w); v[rng.randrange(len(v))] ^= 1
        ops2.append(("valid", g, v))
        ops2.append(("valid", g, list(x) + bits(rng, len(g))))
    def torec(ops, res):
        return [{"t": "crc", "fn": op, "gen": list(g), "x": list(x), "rc": int(r[0]), "out": blist(r[1]) if op == "calc" else [], "note": r[2] if len(r) > 2 else ""}
                for (op, g, x), r in zip(ops, res)]
    redo = lambda bad: torec([(b["fn"], b["gen"], b["x"]) for b in bad], run([(b["fn"], b["gen"], b["x"]) for b in bad]))
    judge(chk, torec(ops, rem) + torec(ops2, run(ops2)), "CRC is not the polynomial remainder", redo)
    # polar encoder with a CRC
    jobs = []
    for m in range(2, 8):
        for _ in range(10 if THOROUGH else 5):
            mask = rand_mask(rng, leaves("polar", m, 0), 0.7); kf = sum(mask)
            if kf < 2: continue
            g = rng.choice((1, kf // 2, rng.randint(1, kf // 2)))
            cfg = Cfg("ca_polar_scl", m, 0, mask, L=2, crc=bstr(bits(rng, g)))
            jobs.append((cfg, messages(rng, cfg.k, 8)))
    judge(chk, enc_recs(jobs), "polar encoder with a CRC", lambda bad: [enc_recs([(cfg_of(b), [b["x"]])])[0] for b in bad])

def crc_objs():
    return [o for o in objects("ca_polar_scl_bg") if "crc" in os.path.basename(o)] or objects("ca_polar_scl_bg")

def c03(chk):
    rng = chk.rng
    chk.model("MCRMCode", "MCRMCode.cfg")
    cfgs = [c for c in code_cfgs(rng, 2 if THOROUGH else 1) if c.k >= 1]
    for m, r in all_rm(5, lambda m: m - 1):    # list sizes and permutations
        for L in (1, 2, 3, 7, 16, 33):
            ps = [rand_perm(rng, m) for _ in range(rng.randint(2, 5))] if rng.random() < 0.5 else None
            cfgs.append(Cfg("dtrm_glp", m, r, L=L, perms=ps))
    sgs = [1e-300, 1e-20, 1e-4, 0.01, 0.03, 0.1, 0.2, 0.3, 0.4, 0.5, 0.7, 0.9, 1.0]
    jobs = []
    for c in cfgs:
        ms = [bits(rng, c.k) for _ in range(3)] + [[0] * c.k, [1] * c.k]
        jobs.append((c, [(x, rng.choice(sgs if c.m < 8 else [v for v in sgs if v <= 0.5])) for x in ms]))
    def run(jobs):
        recs = []
        enc = enc_all([(c, [x for x, _ in xs]) for c, xs in jobs])
        by = {}
        for i, (c, xs) in enumerate(jobs): by.setdefault(c.codec, []).append(i)
        dec = {}
        for codec, ix in by.items():
            cases = []
            for i in ix:
                c, xs = jobs[i]
                q = ["init 0 " + c.params(), "csnrn 0 %d" % rng.randint(0, 9)]
                for (x, sg), e in zip(xs, [e for e in enc[i] if e[0] == "enc"]):
                    q += ["sg 0 " + hexf(sg), "dec 0 " + " ".join({"1": "1", "0": "-1"}.get(b, "0") for b in e[2])]
                cases.append(q)
            for i, a in zip(ix, run_codec_cases(codec, cases, fill=rng.choice((0, 0xbe, 0xff)))): dec[i] = a
        for i, (c, xs) in enumerate(jobs):
            es = [e for e in enc[i] if e[0] == "enc"]; ds = [d for d in dec[i] if d[0] == "dec"]
            for j, (x, sg) in enumerate(xs):
                ok = j < len(es) and j < len(ds)
                recs.append(c.rec(t="rt", params=c.params(), sg=sg, x=x, c=blist(es[j][2]) if j < len(es) else [], rc=int(ds[j][1]) if ok else -99,
                                  xd=blist(ds[j][2]) if ok else [], note="" if ok else str(dec[i][-1:])))
                if not ok: break
        return recs
    recs = run(jobs)
    redo = lambda bad: [run([(cfg_of(b), [(b["x"], b["sg"])])])[0] for b in bad]
    judge(chk, recs, "noise-free round trip fails", redo)
    chk.extra["configurations"] = len(jobs)

# ---------------------------------------------------------------- D02, D07, D08, D09
def rm1_recs(jobs):
    cases, recs = [], []
    for fn, m, ls, y in jobs:
        v = [math.log(b / a) for a, b in y] if fn in ("sh", "lst") else [math.tanh(0.5 * math.log(a / b)) for a, b in y]  # internal format
        cases.append(["rm1 %s %d %d %s" % (fn, m, ls, " ".join(hexf(q) for q in v))])
    for (fn, m, ls, y), a in zip(jobs, run_codec_cases("dtrm1", cases)):
        a = a[0]; ok = a[0] == "rm1"
        if ok and a[1] == "-51": continue   # the library has no such function (any more)
        x = blist(a[2]) if ok else []
        r = {"codec": "dtrm1", "fn": fn, "kind": "rm1", "m": m, "r": 1, "mask": [1], "crc": [], "y": y, "rc": int(a[1]) if ok else -99, "xd": x, "lsiz": ls, "note": "" if ok else str(a)}
        r["t"] = {"lst": "list"}.get(fn, "ml")
        r["xs"] = [x[i:i + m + 1] for i in range(0, len(x), m + 1)]
        recs.append(r)
    return recs

def d02(chk):
    rng = chk.rng
    chk.model("MCListDecV", text=MODEL_DEC["rm1"])
    T = 3 if THOROUGH else 1
    jobs = []
    for m, r in all_rm(6 if THOROUGH else 5):
        cfg = Cfg("dtrm1", m, r)
        jobs.append((cfg, inputs(rng, cfg, {1: 6, 2: 20, 3: 40, 4: 30, 5: 8, 6: 3}[m] * T)))
    jobs += long_jobs(rng, "dtrm1", 1000 if THOROUGH else 200)
    run_dec(chk, "dtrm1", jobs, "dtrm1 does not decide as its recursion requires")
    rm1 = []
    for m in range(1, 6):
        for _ in range((40 if m < 5 else 10) * T):
            fn = rng.choice(("sh", "lst", "finp", "dotp"))
            n = 1 << m
            word = [0] * n if rng.random() < 0.3 else None
            rm1.append((fn, m, rng.randint(1, n) if fn == "lst" else 1, weights(rng, n, word, 0.2)))
    for _ in range(8 * T):
        m = rng.choice((6, 7, 8)); n = 1 << m
        fn = rng.choice(("sh", "lst", "finp", "dotp"))
        rm1.append((fn, m, rng.choice((1, 2, n // 2, n, rng.randint(1, n))) if fn == "lst" else 1, weights(rng, n, [0] * n if rng.random() < 0.3 else None, 0.2)))
    redo = lambda bad: [r for b in bad for r in rm1_recs([(b["fn"], b["m"], b["lsiz"], b["y"])])]
    judge(chk, rm1_recs(rm1), "RM(1,m) decoder is not maximum likelihood", redo)
    # dtrm1 itself is ML for r = 1 (judged against all code words)
    ml = [(Cfg("dtrm1", m, 1), inputs(rng, Cfg("dtrm1", m, 1), 12 * T)) for m in range(1, 6)]
    ml_judge(chk, "dtrm1", ml, "dtrm1 is not maximum likelihood for r = 1")

def ml_judge(chk, codec, jobs, what):
    def conv(rs): return [dict(r, t="ml", xd=r["x"]) for r in rs]
    recs = conv(decode_records(codec, jobs))
    judge(chk, recs, what, lambda bad: [conv(decode_records(codec, [(cfg_of(b), [(b["y"], b["sg"])])]))[0] for b in bad])

def d07(chk):
    rng = chk.rng
    chk.model("MCListDecV", text=MODEL_DEC["polar"])
    T = 3 if THOROUGH else 1
    jobs = []
    for m, num in ((1, 3), (2, 10), (3, 30), (4, 24), (5, 6)):
        for _ in range(num * T):
            kmax = {1: 2, 2: 4, 3: 7, 4: 7, 5: 6}[m]
            n = 1 << m
            kk = rng.randint(1, min(n, kmax))
            mask = [0] * n
            for i in rng.sample(range(n), kk): mask[i] = 1
            cfg = Cfg("ca_polar_scl", m, 0, mask, L=(1 << kk) + rng.choice((0, 0, 1, 3, 1 << kk)))
            if kk >= 2 and rng.random() < 0.4: cfg = Cfg("ca_polar_scl", m, 0, mask, L=cfg.L, crc=bstr(bits(rng, rng.randint(1, kk // 2))))
            jobs.append((cfg, inputs(rng, cfg, 4)))
    ml_judge(chk, "ca_polar_scl", jobs, "polar list decoder with a large list is not maximum likelihood")
    jobs = []
    for m, num in ((2, 8), (3, 24), (4, 24), (5, 6)):
        for _ in range(num * T):
            r = rng.randint(1, m - 1); lv = leaves("rm0", m, r)
            for _try in range(50):
                mask = rand_mask(rng, lv, rng.choice((0.2, 0.4, 0.6, 1.0)))
                mask = [0 if l[0] == "full" and l[1] > 1 else b for l, b in zip(lv, mask)]
                k = sum(leafdim(l) for l, b in zip(lv, mask) if b)
                if 1 <= k <= 7: break
            else: continue
            ps = None
            if all(mask) and rng.random() < 0.5: ps = [rand_perm(rng, m) for _ in range(2)]
            P = len(ps) if ps else 1
            cfg = Cfg("dtrm_glp", m, r, mask, L=P * (1 << k) + rng.choice((0, 0, 1, 5)), perms=ps)
            jobs.append((cfg, inputs(rng, cfg, 4)))
    ml_judge(chk, "dtrm_glp", jobs, "RM list decoder with a large list is not maximum likelihood")

def rm_labels(m, r): return [j for j in range((1 << m) - 1, -1, -1) if bin(j).count("1") <= r]
def py_encode(m, labels, x):
    """Only proposes transmitted words; the specification encodes the message again itself."""
    return [sum(b for l, b in zip(labels, x) if l & j == 0) & 1 for j in range(1 << m)]

def d08(chk):
    rng = chk.rng
    chk.model("MCRMCode", "MCRMCode.cfg")
    recs, jobs = [], []
    for m, r in all_rm(5, lambda m: m - 1):
        n, d = 1 << m, 1 << (m - r)
        t = (d - 1) // 2
        lab = rm_labels(m, r)
        tot = sum(math.comb(n, i) for i in range(t + 1))
        for codec, Ls in (("dtrm0", (1,)), ("dtrm1", (1,)), ("dtrm_glp", (1, 2, 3, 4, 8))):
            for L in Ls:
                cap = (700 if THOROUGH else 150) if m <= 4 else (300 if THOROUGH else 40)
                if codec == "dtrm_glp": cap //= 2
                pats = [c for i in range(t + 1) for c in itertools.combinations(range(n), i)] if m <= 4 else []
                if tot > cap or m > 4:
                    pats = rng.sample(pats, cap) if pats else [tuple(rng.sample(range(n), t)) for _ in range(cap)]
                cfg = Cfg(codec, m, r, L=L)
                ins = []
                for p in pats:
                    x = bits(rng, len(lab)); c = py_encode(m, lab, x)
                    ins.append((x, [b ^ (j in p) for j, b in enumerate(c)], rng.choice((0.95, 1.0, 1.1))))
                jobs.append((cfg, ins))
    for _ in range(150 if THOROUGH else 50):
        m = rng.choice((6, 6, 7, 7, 8)); r = rng.randint(1, m - 2)
        n, t, lab = 1 << m, ((1 << (m - r)) - 1) // 2, rm_labels(m, r)
        codec = rng.choice(("dtrm0", "dtrm1", "dtrm_glp", "dtrm_glp"))
        cfg = Cfg(codec, m, r, L=rng.choice((1, 2, 3, 8)) if codec == "dtrm_glp" else 1)
        ins = []
        for _ in range(4):
            x = bits(rng, len(lab)); c = py_encode(m, lab, x)
            # anywhere, or within a block or a coset: where the recursion suffers most
            q = rng.random()
            if q < 0.4: p = rng.sample(range(n), t)
            elif q < 0.7: s0 = rng.choice((0, n // 2)); p = rng.sample(range(s0, s0 + n // 2), t)
            else: st = 1 << rng.randrange(m); o = [j for j in range(n) if j & st == 0]; p = rng.sample(o, t)
            ins.append((x, [b ^ (j in p) for j, b in enumerate(c)], rng.choice((0.95, 1.0, 1.1))))
        jobs.append((cfg, ins))
    def run(jobs):
        recs = []
        for codec in ("dtrm0", "dtrm1", "dtrm_glp"):
            js = [j for j in jobs if j[0].codec == codec]
            if not js: continue
            cases = [["init 0 " + c.params(), "csnrn 0 %d" % rng.randint(0, 9)] + [q for x, h, sg in ins for q in ("sg 0 " + hexf(sg), "dec 0 " + " ".join("1" if b else "-1" for b in h))] for c, ins in js]
            for (c, ins), a in zip(js, run_codec_cases(codec, cases)):
                ds = [q for q in a if q[0] == "dec"]
                for i, (x, h, sg) in enumerate(ins):
                    ok = i < len(ds)
                    recs.append(c.rec(t="hard", params=c.params(), x=x, h=h, sg=sg, rc=int(ds[i][1]) if ok else -99, xd=blist(ds[i][2]) if ok else [], note="" if ok else str(a[-1:])))
                    if not ok: break
        return recs
    judge(chk, run(jobs), "fewer than d/2 errors are not corrected", lambda bad: [run([(cfg_of(b), [(b["x"], b["h"], b["sg"])])])[0] for b in bad])

def d09(chk):
    rng = chk.rng
    chk.model("MCRMCode", "MCRMCode.cfg")
    T = 3 if THOROUGH else 1
    jobs = []
    for m, r in all_rm(7) + [(8, 2), (8, 3), (9, 3), (10, 2), (8, 6)]:
        cs = [Cfg("dtrm0", m, r), Cfg("dtrm1", m, r)]
        if r < m:
            lv = leaves("rm0", m, r)
            cs += [Cfg("dtrm_glp", m, r, L=rng.choice((1, 2, 4, 5))), Cfg("dtrm_glp", m, r, rand_mask(rng, lv, 0.7), L=rng.choice((1, 2, 3, 8)))]
            if m <= 5: cs.append(Cfg("dtrm_glp", m, r, L=rng.choice((2, 3, 8)), perms=[rand_perm(rng, m) for _ in range(2)]))
        for c in cs: jobs.append((c, 3 * T))
    for m in range(1, 9):
        for _ in range(3): 
            mask = [0] * (1 << m)
            order = sorted(range(1 << m), key=lambda i: bin(i).count("1") + rng.random())
            for i in order[-rng.randint(1 if m < 6 else 1 << (m - 2), 1 << m if m < 5 else 1 << (m - 1)):]: mask[i] = 1
            jobs.append((Cfg("ca_polar_scl", m, 0, mask, L=rng.choice((1, 2, 3, 4, 8))), 3 * T))
    jobs += [(c, 12 * T) for c, _ in jobs if c.m in (3, 4) and c.kind != "polar" and c.r <= 2]
    full = []
    for c, num in jobs:
        ins = []
        for _ in range(num):
            y1 = noisy(rng, c); x = bits(rng, c.k); sg = sigma(rng); a = rng.choice((1, 2.0, 0.25, 1024.0, 3.0, 0.1, 7.7))
            ins.append((y1, x, sg, a))
        full.append((c, ins))
    def run(full):
        enc = enc_all([(c, [x for _, x, _, _ in ins]) for c, ins in full])
        recs = []
        for codec in CODECS:
            js = [(c, ins, e) for (c, ins), e in zip(full, enc) if c.codec == codec]
            if not js: continue
            cases = []
            for c, ins, e in js:
                q = ["init 0 " + c.params(), "csnrn 0 %d" % rng.randint(0, 9)]
                es = [z for z in e if z[0] == "enc"]
                for (y1, x, sg, a), w in zip(ins, es):
                    v = llr_input(y1, sg)
                    q += ["sg 0 " + hexf(sg), "dec 0 " + " ".join(hexf(z) for z in v)]
                    q += ["sg 0 " + hexf(sg * math.sqrt(a)), "dec 0 " + " ".join(hexf(-z * a if b == "1" else z * a) for z, b in zip(v, w[2]))]
                cases.append(q)
            for (c, ins, e), a in zip(js, run_codec_cases(codec, cases)):
                ds = [z for z in a if z[0] == "dec"]; es = [z for z in e if z[0] == "enc"]
                for i, (y1, x, sg, al) in enumerate(ins):
                    ok = 2 * i + 1 < len(ds)
                    w = blist(es[i][2]) if i < len(es) else []
                    y2 = [[p[1], p[0]] if b == 1 else p for p, b in zip(y1, w)]
                    recs.append(c.rec(t="sym", params=c.params(), msg=x, y1=y1, y2=y2, sg=sg, scale=al, rc1=int(ds[2 * i][1]) if ok else -99, rc2=int(ds[2 * i + 1][1]) if ok else -98,
                                      x1=blist(ds[2 * i][2]) if ok else [], x2=blist(ds[2 * i + 1][2]) if ok else [], note="" if ok else str(a[-1:])))
                    if not ok: break
        return recs
    judge(chk, run(full), "decoding depends on the transmitted code word or on the scale", lambda bad: [run([(cfg_of(b), [(b["y1"], b["msg"], b["sg"], b["scale"])])])[0] for b in bad])

def noisy(rng, c):
    """A received vector as integer likelihood pairs: the zero word in noise.  Reliabilities that matter
    must neither vanish (sums over 2^r symbols) nor reach the clipping threshold (2^(m-r) added up)."""
    if c.kind == "polar":
        if c.m >= 6: return awgn_weights(rng, c.n, rng.choice((0.35, 0.45, 0.55)))
        lo, hi = 0.0, 8.0
    else:
        hi = min(8.0, 18.0 / (1 << (c.m - c.r)))
        lo = 0.5 * hi if c.r >= 4 else 0.1 * hi
        if c.r >= 6: lo = 0.7 * hi
    snr = rng.choice((0.5, 1.0, 1.5))
    flip = rng.choice((0.05, 0.15, 0.3))
    # a single strong symbol against many weak ones: nothing it could cancel out against exactly
    strong = rng.randrange(c.n) if rng.random() < 0.35 and c.kind != "polar" and c.m <= 6 and c.r <= 3 else -1
    if strong >= 0:   # they nearly outvote it, or just do
        flip = rng.choice((0.5, 0.9, 1, 1))
        weak = rng.uniform(8, 16) / max(1, (1 << (c.m - c.r)) - 1)
    out = []
    for i in range(c.n):
        if i == strong: b = rng.randint(2, 9); out.append([round(b * math.exp(rng.uniform(12, 17))), b]); continue
        if strong >= 0: l = rng.uniform(0.8, 1.1) * weak * (-1 if rng.random() < flip else 1)
        elif c.kind == "polar": l = max(-8.0, min(8.0, 2 * snr * snr * (1 + rng.gauss(0, 1) / snr)))
        else: l = rng.uniform(lo, hi) * (-1 if rng.random() < flip else 1)
        b = rng.randint(10000, 99999)
        out.append([max(1, round(b * math.exp(l))), b] if l > 0 else [b, max(1, round(b * math.exp(-l)))])
    return out

# ---------------------------------------------------------------- D10
def api_cfgs(rng, codec):
    """Five configurations with very different memory needs."""
    if codec in ("dtrm0", "dtrm1"): return [Cfg(codec, *mr) for mr in rng.sample([(1, 1), (2, 1), (3, 2), (4, 2), (5, 2), (5, 3), (6, 3), (7, 3), (4, 1)], 5)]
    if codec == "dtrm_glp":
        out = []
        for i, (m, r) in enumerate(rng.sample([(2, 1), (3, 1), (3, 2), (4, 2), (5, 2), (6, 2), (5, 3)], 5)):
            ps = [rand_perm(rng, m) for _ in range(3)] if i in (1, 3) else None
            mask = rand_mask(rng, leaves("rm0", m, r), 0.7) if i == 2 else None
            extra = ["use_variable_list", "on", "distance_threshold", "{", 2, "0.5", 6, "1e30", "}"] if i == 4 else []
            out.append(Cfg(codec, m, r, mask, rng.choice((1, 2, 5, 8)), perms=ps, extra=extra))
        return out
    out = []
    for i, m in enumerate(rng.sample([1, 2, 3, 4, 5, 6, 7], 5)):
        mask = rand_mask(rng, leaves("polar", m, 0), 0.6); kf = sum(mask)
        out.append(Cfg(codec, m, 0, mask, rng.choice((1, 2, 3, 8)), crc=bstr(bits(rng, rng.randint(1, min(6, kf // 2)))) if i % 2 and kf >= 2 else ""))
    return out

def bad_params(rng, codec, cfgs):
    """Four parameter texts no codec may accept."""
    if codec == "ca_polar_scl": return ["c_m 3 list_size 2", "c_m 3 info_bits_mask 0001 list_size 2", "c_m 3 info_bits_mask 00010111 ca_polar_crc 011 list_size 4", "c_m 3 info_bits_mask 00000000 list_size 1"]
    out = ["RM_m 3", "RM_r 1", "RM_m 2 RM_r 3", "RM_m 0 RM_r 1"]
    if codec == "dtrm_glp": out[1:] = ["RM_m 3 RM_r 1 border_node_mask 11 border_node_lsize 2", "RM_m 3 RM_r 1 border_node_lsize 2 permutations { 0 1 1 }", "RM_m 4 RM_r 2 border_node_lsize 0"]
    return out

def tlc_sequences(chk, cfg_text, num, depth):
    """Behaviours of Api generated by TLC's simulator."""
    f = tmpname(".cfg"); open(f, "w").write(cfg_text)
    r = tlc("Api", f, args=["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(SEED)], workers=1)
    seqs = []
    for part in re.split(r'<<\s*"SEQ",', r.out)[1:]:
        depth = 0
        for m in re.finditer(r"<<|>>", part):
            depth += 1 if m.group() == "<<" else -1
            if depth == 0: seqs.append(json.loads(part[:m.end()].replace("<<", "[").replace(">>", "]"))); break
    # TLC evaluates the last step's alternatives too: keep one of each behaviour
    seqs = list({json.dumps(q[:-1]): q for q in seqs}.values())
    if len(seqs) < num // 2: raise Infra("TLC generated %d sequences\n%s" % (len(seqs), r.out[-2000:]))
    chk.extra["generated_sequences"] = chk.extra.get("generated_sequences", 0) + len(seqs)
    return seqs

def d10(chk):
    rng = chk.rng
    chk.model("Api", "MCApi.cfg")
    num, depth = (150, 60) if THOROUGH else (40, 45)
    recs = []
    for codec in CODECS:
        cfgs = api_cfgs(rng, codec)
        sgs = [0.9, 0.35, 2.0, 0.6]
        msgs = [[bits(rng, c.k) for _ in range(5)] for c in cfgs]
        vecs = []
        for c in cfgs:
            v = [[rng.choice((-1, 1)) + rng.gauss(0, s) for _ in range(c.n)] for s in (0.3, 0.8, 3)]
            v.append([0.0] * c.n); v.append([rng.choice((-1, 1)) * rng.choice((1e-3, 1, 50)) for _ in range(c.n)])
            vecs.append(v)
        bads = bad_params(rng, codec, cfgs)
        def cmds(seq):
            cur, out = {}, ["init 0 " + cfgs[0].params(), "close 0", "mem"]
            for op, s, a in seq:
                if op == "init": cur[s] = a - 1; out.append("init %d %s" % (s, cfgs[a - 1].params()))
                elif op == "bad": out.append("init %d %s" % (s, bads[a - 1]))
                elif op == "chan": out += ["csnrn %d %d" % (s, (7 * s + 3 * a + len(out)) % 11), "sg %d %s" % (s, hexf(sgs[a - 1]))]
                elif op == "enc": out.append("enc %d %s" % (s, bstr(msgs[cur[s]][a - 1])))
                elif op == "rep": out.append("rep %d %d 5 %s" % (a, s, " ".join(hexf(x) for v in vecs[cur[s]] for x in v)))
                elif op == "dec": out.append("dec %d %s" % (s, " ".join(hexf(x) for x in vecs[cur[s]][a - 1])))
                else: out.append("close %d" % s)
                out.append("mem")
            return out
        def parse(seq, ans):
            """answers -> calls"""
            ans = [x for x in ans]
            mems = [x for x in ans if x[0] == "mem"]
            calls, i = [], 3
            base = ans[2][1] if len(ans) > 2 and ans[2][0] == "mem" else None
            for op, s, a in seq:
                if op == "chan": i += 1
                if i + 1 >= len(ans) or ans[i][0] == "CRASH" or ans[i + 1][0] != "mem":
                    calls.append({"op": op, "s": s, "a": a, "rc": -99, "out": "", "kept": 0, "mem": 0, "note": str(ans[-1])}); break
                w, m = ans[i], ans[i + 1]; i += 2
                if op == "rep":   # many decodings: every result that ever occurred
                    for q in w[1:]:
                        j, rc, x, kept = q.split(":")
                        calls.append({"op": "dec", "s": s, "a": int(j) + 1, "rc": int(rc), "out": x, "kept": int(kept), "mem": 0})
                    continue
                calls.append({"op": op, "s": s, "a": a, "rc": int(w[1]) if len(w) > 1 else 0, "out": w[2] if op in ("enc", "dec") else "",
                              "kept": int(w[3]) if op in ("enc", "dec") else 1, "mem": int(m[1] == base)})
            return calls
        # what each call gives on its own, in a process of its own
        keys = [("enc", c, 0, i) for c in range(5) for i in range(5)] + [("dec", c, h, i) for c in range(5) for h in range(4) for i in range(5)]
        ref = [{"enc": [[[] for _ in range(5)]], "dec": [[]] + [[[] for _ in range(5)] for _ in range(4)]} for _ in range(5)]
        singles = [[["init", 0, c + 1]] + ([["chan", 0, h + 1]] if op == "dec" else []) + [[op, 0, i + 1]] for op, c, h, i in keys]
        for fill in (0, 0xbe, 0xff):
            def lone(seq):
                exe = codec_driver(codec)
                fin, fout = tmpname(".in"), tmpname(".out")
                open(fin, "w").write("case\n" + "\n".join(cmds(seq)[3:]) + "\nend\n")
                rc, out = run_proc([exe, fin, fout], timeout=60, fill=fill)
                l = [x.split() for x in open(fout).read().splitlines()]
                os.unlink(fin); os.unlink(fout)
                l = [x for x in l if x[0] in ("enc", "dec")]
                return {"rc": int(l[0][1]), "out": l[0][2], "kept": int(l[0][3])} if rc == 0 and l else {"rc": -98, "out": crash_text(out), "kept": 0}
            todo = list(range(len(keys))) if fill == 0xbe or THOROUGH else rng.sample(range(len(keys)), 25)
            for j, r in zip(todo, parallel(lone, [singles[j] for j in todo])):
                op, c, h, i = keys[j]
                if op == "enc": ref[c]["enc"][0][i].append(r)
                else: ref[c]["dec"][h + 1][i].append(r)
        seqs = tlc_sequences(chk, "SPECIFICATION Spec\nCONSTANTS Slots = {0, 1, 2} Cfgs = {1, 2, 3, 4, 5} Chans = {1, 2, 3, 4} Ins = {1, 2, 3, 4, 5} Depth = %d\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n" % depth, num, depth)
        seqs += tlc_sequences(chk, "SPECIFICATION Spec\nCONSTANTS Slots = {0, 1, 2, 3, 4, 5} Cfgs = {1, 2, 3, 4, 5} Chans = {1, 2, 3, 4} Ins = {1, 2, 3, 4, 5} Depth = %d\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n" % (depth + 20), num // 2, depth + 20)
        # every generated sequence ends with all slots closed
        # one instance used for very many calls
        for c in range(1, 6):
            cost = max(1, len(cfgs[c - 1].mask)) * cfgs[c - 1].L * max(1, len(cfgs[c - 1].perms))
            seqs.append([["init", 5, c], ["chan", 5, 1 + c % 4], ["init", 2, 1 + c % 5], ["rep", 5, 70000 if cost <= 40 else 3000 if cost < 300 else 600], ["enc", 5, 1], ["dec", 5, 3]])
        for q in seqs:
            op = {}
            for o, s, a in q: op[s] = o != "close" and (o != "bad" or op.get(s, False))
            q += [["close", s, 0] for s in op if op[s]]
        def run(seqs): return [parse(q, a) for q, a in zip(seqs, run_codec_cases(codec, [cmds(q) for q in seqs], fill=rng.choice((0, 0xbe, 0xff))))]
        new = [{"t": "seq", "codec": codec, "ref": ref, "calls": c, "seq": q, "params": [c.params() for c in cfgs]} for q, c in zip(seqs, run(seqs))]
        for r in new: r["id"] = len(recs) + 1; recs.append(r)
    bad = chk.validate("TraceApi", recs, what="call sequence")
    for b in bad[:6]:
        chk.violation("codec calls are not pure: codec=%s calls=%s" % (b["codec"], [(c["op"], c["s"], c["a"], c["rc"], c.get("note", "")) for c in b["calls"]][-8:]), dict(b, ref=None))

CHECKS = {"D10": d10, "D11": d11, "C01": c01, "C02": c02, "C03": c03, "D01": d01, "D02": d02, "D03": d03, "D04": d04, "D05": d05, "D06": d06, "D07": d07, "D08": d08, "D09": d09}
