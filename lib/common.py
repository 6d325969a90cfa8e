"""Shared machinery of the checks: building /repo, running drivers, running TLC,
validating recorded traces, evidence and violation reports."""
import json, threading, os, random, re, shutil, subprocess, sys, tempfile, time, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
NCPU = 8
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:max_malloc_fill_size=67108864:malloc_fill_byte=%d",
            "UBSAN_OPTIONS": "print_stacktrace=1"}

WORK = tempfile.mkdtemp(prefix="ecv.")
_procs = []
def _cleanup():
    for p in _procs:
        if p.poll() is None:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
    shutil.rmtree(WORK, ignore_errors=True)
atexit.register(_cleanup)

class Infra(Exception):
    """The machinery (not the code under test) failed."""

def sh(cmd, timeout=300, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)
    return r.returncode, r.stdout

def env(extra=None, fill=0xbe):
    e = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C.UTF-8", "HOME": WORK, "TMPDIR": WORK}
    for k, v in ASAN_ENV.items(): e[k] = v % fill if "%d" in v else v
    e.update(extra or {})
    return e

# ---------------------------------------------------------------- building
_BUILT = {}
_LOCK = threading.RLock()
def locked(f):
    def g(*a, **k):
        with _LOCK: return f(*a, **k)
    return g
CODECS = ["dtrm0", "dtrm1", "dtrm_glp", "ca_polar_scl"]
DEFS = {"dtrm0": ["-DDEC_NEEDS_SIGMA"], "dtrm1": ["-DDEC_NEEDS_SIGMA"], "ca_polar_scl": ["-DDEC_NEEDS_SIGMA"],
        "dtrm_glp": ["-DDEC_NEEDS_SIGMA", "-DDEC_NEEDS_CSNRN"]}

@locked
def build(flavour="asan"):
    """Builds all simulators of the working tree; returns the build directory."""
    if flavour in _BUILT: return _BUILT[flavour]
    b = os.path.join(WORK, "b_" + flavour)
    flags = {"asan": "-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=bounds -fno-omit-frame-pointer -w", "plain": "-O2 -g -w"}[flavour]
    rc, out = sh(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_FLAGS=" + flags,
                  "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_C_STANDARD_LIBRARIES=-lm"], env=env())
    if rc == 0: rc, out = sh(["ninja", "-C", b] + [c + "_bg" for c in CODECS], env=env())
    if rc: raise Infra("build of /repo failed:\n" + out[-3000:])
    _BUILT[flavour] = b
    return b

@locked
def objects(target, flavour="asan", drop=("main",)):
    """Objects of a CMake target except those that define one of the symbols in drop."""
    key = (target, flavour, tuple(drop))
    if key in _BUILT: return _BUILT[key]
    d = os.path.join(build(flavour), "CMakeFiles", target + ".dir")
    res = []
    for root, _, fs in os.walk(d):
        for f in fs:
            if not f.endswith(".o"): continue
            p = os.path.join(root, f)
            syms = {l.split()[-1] for l in sh(["nm", "--defined-only", p])[1].splitlines() if l.split()[-2:-1] == ["T"]}
            if not syms & set(drop): res.append(p)
    if not res: raise Infra("no objects for " + target)
    _BUILT[key] = sorted(res)
    return _BUILT[key]

def flags(flavour):
    return ["-O1", "-g", "-w"] + (["-fsanitize=address,undefined", "-fno-omit-frame-pointer"] if flavour == "asan" else [])

@locked
def link(name, sources, objs, flavour="asan", extra=()):
    exe = os.path.join(WORK, name + "_" + flavour)
    if os.path.exists(exe): return exe
    rc, out = sh(["gcc", "-std=gnu11"] + flags(flavour) + ["-I", REPO, "-I", os.path.join(VERIF, "harness"), "-o", exe]
                 + [s if os.path.isabs(s) else os.path.join(VERIF, "harness", s) for s in sources] + objs + list(extra) + ["-lm"], env=env())
    if rc: raise Infra("link of %s failed:\n%s" % (name, out[-3000:]))
    return exe

def codec_driver(codec, flavour="asan"):
    return link("drv_" + codec, ["codec_driver.c"], objects(codec + "_bg", flavour), flavour, DEFS[codec] + (["-DHAVE_RM1"] if codec == "dtrm1" else []))

def sim_driver(codec=None, flavour="asan"):
    """The simulator of the working tree with the scripted codec (codec None) or a real one."""
    t = (codec or "dtrm_glp") + "_bg"
    if codec: return link("sim_" + codec, ["sim_driver.c"], objects(t, flavour), flavour, DEFS[codec] + ["-Wl,--wrap=time"])
    return link("sim_mock", ["sim_driver.c", "mock_codec.c"], objects(t, flavour, ("main", "cdc_init", "dec_bpsk", "Dec_ind", "rm_dec_bpsk")), flavour,
                DEFS["dtrm_glp"] + ["-Wl,--wrap=time"])

# ---------------------------------------------------------------- running
def run_proc(cmd, stdin=None, timeout=300, fill=0xbe, cwd=None, extra_env=None):
    """Returns (rc, stdout+stderr); rc is 'timeout' when it does not end."""
    # Output goes to a file, and no file may grow beyond 64 MB: code that loops
    # for ever must not fill the memory or the disk.
    outf = tmpname(".stdout")
    with open(outf, "wb") as f:
        p = subprocess.Popen(["/bin/sh", "-c", 'ulimit -f 131072; exec "$0" "$@"'] + list(cmd), stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=f, stderr=subprocess.STDOUT, cwd=cwd or WORK, env=env(extra_env, fill), start_new_session=True)
    _procs.append(p)
    try:
        p.communicate(stdin.encode() if stdin is not None else None, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate(); rc = "timeout"
    _procs.remove(p)
    with open(outf, "rb") as f: out = f.read(1 << 22).decode(errors="replace")
    os.unlink(outf)
    return rc, out

_n = [0]
def tmpname(suffix=""):
    _n[0] += 1
    return os.path.join(WORK, "t%d%s" % (_n[0], suffix))

def parallel(fn, items, workers=NCPU):
    with ThreadPoolExecutor(workers) as ex: return list(ex.map(fn, items))

def chunks(xs, n):
    k = max(1, (len(xs) + n - 1) // n)
    return [xs[i:i + k] for i in range(0, len(xs), k)]

# A codec case: list of command tuples; the driver answers each with one line.
def run_codec_cases(codec, cases, timeout=240, fill=0xbe, flavour="asan"):
    """cases: list of lists of command strings.  Returns for each case the list of answers
    (as lists of words); a case that crashed or hung ends with ['CRASH', text]."""
    exe = codec_driver(codec, flavour)
    def one(chunk):
        res = []
        todo = list(chunk)
        while todo:
            fin, fout = tmpname(".in"), tmpname(".out")
            with open(fin, "w") as f:
                for c in todo: f.write("case\n" + "\n".join(c) + "\n")
                f.write("end\n")
            rc, out = run_proc([exe, fin, fout], timeout=timeout, fill=fill)
            ans, cur = [], None
            for l in (open(fout).read().split("\n") if os.path.exists(fout) else []):
                w = l.split()
                if not w: continue
                if w[0] == "case": cur = []; ans.append(cur)
                elif w[0] == "end": cur = None
                elif cur is not None: cur.append(w)
            os.unlink(fin)
            if os.path.exists(fout): os.unlink(fout)
            if rc == 0 and len(ans) == len(todo) and cur is None:
                res += ans; break
            if not ans: ans.append([])
            if rc == 0: rc = "short output"
            ans[-1].append(["CRASH", "%s: %s" % (rc, crash_text(out))])
            res += ans
            todo = todo[len(ans):]
        return res
    order = list(range(len(cases)))
    parts = chunks(order, NCPU)
    out = [None] * len(cases)
    for idx, r in zip(parts, parallel(lambda ix: one([cases[i] for i in ix]), parts)):
        for i, x in zip(idx, r): out[i] = x
    return out

def crash_text(out):
    ls = [l for l in out.splitlines() if "ERROR:" in l or re.match(r"\s*#[0-3] ", l) or "runtime error" in l]
    return " | ".join(x.strip() for x in ls[:6])[:600] or out[-300:].replace("\n", " | ")

# ---------------------------------------------------------------- TLC
def classes():
    d = os.path.join(VERIF, "build", "classes")
    src = os.path.join(VERIF, "java", "BigW.java")
    if not os.path.exists(os.path.join(d, "BigW.class")) or os.path.getmtime(os.path.join(d, "BigW.class")) < os.path.getmtime(src):
        d = os.path.join(WORK, "classes")
        if not os.path.exists(os.path.join(d, "BigW.class")):
            rc, out = sh(["javac", "-cp", TLAJAR, "-d", d, src])
            if rc: raise Infra("javac: " + out)
    return d

class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.ok = rc == 0 and "No error has been found" in out
        self.violated = re.findall(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|Property (\S+) is violated", out)

def tlc(module, cfg=None, envv=None, workers=NCPU, timeout=800, args=()):
    meta = tmpname(".meta")
    e = dict(os.environ); e.update(envv or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx12g", "-cp", classes() + ":" + TLAJAR, "tlc2.TLC", "-metadir", meta,
           "-workers", str(workers), "-config", cfg or module + ".cfg", "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    _procs.append(p)
    try: out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        raise Infra("TLC timed out on %s" % module)
    finally: shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(p.returncode, out.decode(errors="replace"))

# ---------------------------------------------------------------- a check
class Check:
    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.models, self.violations, self.known, self.assume, self.extra = [], [], [], [], [], {}
        self.rng = random.Random("%s/%d" % (pid, SEED))

    def model(self, module, cfg=None, text=None, **kw):
        """Exhaustive model checking of the specification itself."""
        if text is not None:
            cfg = tmpname(".cfg"); open(cfg, "w").write(text)
        r = tlc(module, cfg, **kw)
        if not r.ok: raise Infra("specification %s does not check:\n%s" % (module, r.out[-3000:]))
        self.states += r.distinct; self.transitions += r.generated
        self.models.append({"module": module, "distinct_states": r.distinct, "states_generated": r.generated})
        return r

    def validate(self, module, records, cfg=None, what="trace", timeout=800):
        """Runs the trace specification over the records; returns the ids it rejects.
        A record is accepted when TLC prints <<"ACC", id>> for it."""
        if not records: return []
        f = tmpname(".ndjson")
        with open(f, "w") as h:
            for r in records: h.write(json.dumps(r) + "\n")
        r = tlc(module, cfg, {"TRACE": f}, timeout=timeout)
        if not r.ok: raise Infra("trace validation with %s failed:\n%s" % (module, r.out[-4000:]))
        acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', r.out))
        self.states += r.distinct; self.transitions += r.generated
        for v in re.findall(r'<<"VERDICT", "(\w+)">>', r.out): self.extra.setdefault("verdicts", {}); self.extra["verdicts"][v] = self.extra["verdicts"].get(v, 0) + 1
        amb = set(int(x) for x in re.findall(r'<<"AMB", (\d+)>>', r.out)) - acc
        self.traces += len(acc)
        if amb: self.extra["undetermined_near_ties"] = self.extra.get("undetermined_near_ties", 0) + len(amb)
        self.models.append({"module": module, "records": len(records), "accepted": len(acc), "distinct_states": r.distinct, "states_generated": r.generated})
        for x in records[:2]:
            if len(self.samples) < 6: self.samples.append({"kind": what, "record": shorten(x)})
        os.unlink(f)
        return [x for x in records if x["id"] not in acc and x["id"] not in amb]

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def finish(self):
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
              "coverage": dict({"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "samples": self.samples or self.models[:1], "models": self.models}, **self.extra),
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violations:
            p = os.path.join(VERIF, "evidence", self.pid + ".replay.json")
            with open(p, "w") as f: json.dump([{"what": w, "replay": r} for w, r in self.violations[:20]], f, indent=1)
            for w, _ in self.violations[:5]: print("  " + str(w)[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        p = os.path.join(VERIF, "evidence", self.pid + ".replay.json")
        if os.path.exists(p): os.unlink(p)
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.pid, self.states, self.traces, time.time() - self.t0))
        return 0

def shorten(x, n=40):
    if isinstance(x, list): return [shorten(y, n) for y in x[:n]] + (["...%d" % len(x)] if len(x) > n else [])
    if isinstance(x, dict): return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, str) and len(x) > 200: return x[:200] + "..."
    return x
