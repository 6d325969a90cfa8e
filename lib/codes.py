"""Configurations of the codecs and random inputs for them.  Nothing here decides
anything; the specification does."""
import math, struct
def binom(n, k): return math.comb(n, k) if 0 <= k <= n else 0
KIND = {"dtrm0": "rm0", "dtrm1": "rm1", "dtrm_glp": "rm0", "ca_polar_scl": "polar"}

def leaves(kind, m, r):
    if kind == "polar": return [("rep", 0)] * (1 << m)
    if kind == "rm0" and (r == 0 or r == m): return [("full" if r == m and m > 0 else "rep", m)]
    if kind == "rm1" and (r == 1 or r == m): return [("full" if r == m else "rm1", m)]
    return leaves(kind, m - 1, r - 1) + leaves(kind, m - 1, r)
def leafdim(l): return {"rep": 1, "full": 1 << l[1], "rm1": l[1] + 1}[l[0]]

class Cfg:
    """One accepted codec configuration."""
    def __init__(self, codec, m, r=0, mask=None, L=1, perms=None, crc="", extra=None):
        self.codec, self.m, self.r, self.L, self.crc = codec, m, r, L, crc
        self.kind = KIND[codec]
        self.lv = leaves(self.kind, m, r)
        self.mask = mask or [1] * len(self.lv)
        self.perms = perms or []
        self.n = 1 << m
        self.kfull = sum(leafdim(l) for l, b in zip(self.lv, self.mask) if b)
        self.k = self.kfull - len(crc)
        self.extra = extra or []
    def params(self):
        ms = "".join(str(b) for b in self.mask)
        if self.codec == "ca_polar_scl":
            p = ["c_m", self.m, "info_bits_mask", ms, "list_size", self.L]
            if self.crc: p += ["ca_polar_crc", self.crc]
        else:
            p = ["RM_m", self.m, "RM_r", self.r]
            if self.codec == "dtrm_glp": p += ["border_node_mask", ms, "border_node_lsize", self.L]
        if self.perms: p += ["permutations", "{"] + [x for q in self.perms for x in q] + ["}"]
        return " ".join(str(x) for x in list(p) + self.extra)
    def rec(self, **kw):
        d = {"codec": self.codec, "kind": self.kind, "m": self.m, "r": self.r, "L": self.L, "mask": list(self.mask),
             "perms": self.perms or [list(range(self.m))], "crc": [int(c) for c in self.crc]}
        d.update(kw); return d

def hexf(v): return float(v).hex()

# Likelihood ratios stay so small that no reliability inside a decoder comes near
# the documented clipping threshold (1 - 1e-8), where they are only approximate.
MAXSUM = 13.0
def weights(rng, n, word=None, flip=0.15, spread=1.0):
    """n pairs of integer likelihoods (bit 0, bit 1), leaning to word if given."""
    lim = min(9.2, MAXSUM / n) * spread
    out = []
    for j in range(n):
        l = abs(rng.uniform(-lim, lim)) if rng.random() < 0.8 else lim * rng.random() ** 3
        s = rng.choice((0, 1)) if word is None else (word[j] ^ (rng.random() < flip))
        b = rng.randint(1000, 9999)
        a = max(1, round(b * math.exp(l)))
        if a > 99999999: a = 99999999
        out.append([b, a] if s else [a, b])
    return out
def llr_input(w, sg):
    """Channel outputs with exactly these posterior ratios at noise sigma sg."""
    return [sg * sg / 2 * math.log(b / a) for a, b in w]
def bits(rng, n): return [rng.randint(0, 1) for _ in range(n)]
def bstr(x): return "".join(str(b) for b in x)
def blist(s): return [int(c) if c in "01" else 7 for c in s]

def rand_mask(rng, lv, p=0.6):
    while True:
        m = [1 if rng.random() < p else 0 for _ in lv]
        if any(m): return m
def rand_perm(rng, m):
    p = list(range(m)); rng.shuffle(p); return p
