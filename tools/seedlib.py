"""Builds /verif/seeded from definitions (tools/seeds.py).  For each: applies the edits in /repo,
runs the stable tests, the demo with and without the change, and undoes the change.
usage: seedlib.py [id...]"""
import json, os, shutil, subprocess, sys, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
BASE = "d399b69"
SEEDS = {}
CODEC_SH = """#!/bin/bash
# %(what)s
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
objs=$(find _build/CMakeFiles/%(codec)s_bg.dir -name '*.o' | grep -v main_txt)
gcc -O1 -w -I. -DDEC_NEEDS_SIGMA %(defs)s -o "$t/drv" "$d/drv.c" $objs -lm || exit 0
%(env)s timeout 100 "$t/drv" "$d/cmds" "$t/ans" > /dev/null 2>&1
diff "$t/ans" "$d/expected" | head -5
cmp -s "$t/ans" "$d/expected"
"""
SIM_SH = """#!/bin/bash
# %(what)s
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
objs=$(find "$PWD/_build/CMakeFiles/dtrm_glp_bg.dir" -name '*.o' | grep -v -e main_txt -e bg.dir/dtrm_glp/)
gcc -O1 -w -I. -DDEC_NEEDS_SIGMA -DDEC_NEEDS_CSNRN -Wl,--wrap=time -o "$t/drv" "$d/sim_driver.c" "$d/mock_codec.c" $objs -lm || exit 0
cp "$d"/*.spf "$t/" 2>/dev/null
cd "$t"
timeout 100 ./drv "$d/cmds" ans > /dev/null 2>&1
%(pick)s
diff got "$d/expected" | head -5
cmp -s got "$d/expected"
"""
def sh(c, **k):
    r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return r.returncode, r.stdout
def seed(id, prop, edits, needs, breaks, demo): SEEDS[id] = (prop, edits, needs, breaks, demo)
def codec(what, name, cmds, env="", rm1=False):
    defs = ("-DDEC_NEEDS_CSNRN " if name == "dtrm_glp" else "") + ("-DHAVE_RM1" if rm1 else "")
    return ("codec", CODEC_SH % dict(what=what, codec=name, defs=defs, env=env), {"cmds": cmds})
def sim(what, spfs, cmds, pick="cp ans got"):
    return ("sim", SIM_SH % dict(what=what, pick=pick), dict(spfs, cmds=cmds))
def script(text, files=None): return ("sh", text, files or {})
def put(d, demo):
    kind, text, files = demo
    if kind == "codec": shutil.copy(V + "/harness/codec_driver.c", d + "/drv.c")
    if kind == "sim":
        for f in ("sim_driver.c", "mock_codec.c"): shutil.copy(V + "/harness/" + f, d)
    for n, t in files.items():
        if isinstance(t, (list, tuple)): t = "\n".join(t) + "\n"
        open(d + "/" + n, "w").write(t)
    open(d + "/demo.sh", "w").write(text); os.chmod(d + "/demo.sh", 0o755)
    return kind
def tests():
    rc, out = sh("bash /opt/vp/test.sh /tmp/seed.json")
    try: j = json.load(open("/tmp/seed.json")); return len(j["passed"]) == 20 and not j["failed"]
    except Exception: return False
def demo(d): return sh("timeout 300 bash %s/demo.sh" % d, cwd=R)
def build(): return sh("bash /opt/vp/build.sh")[0] == 0
def make(id):
    prop, edits, needs, breaks, dm = SEEDS[id]
    if sh("git -C /repo status --porcelain --untracked-files=no")[1].strip(): sys.exit("/repo is not clean")
    d = V + "/seeded/" + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    kind = put(d, dm)
    try:
        for f, old, new in edits:
            p = R + "/" + f; s = open(p, newline="").read()
            if "\r\n" in s and "\r\n" not in old: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1: return "edit matches %d times: %s" % (s.count(old), old[:60])
            open(p, "w", newline="").write(s.replace(old, new))
        sh("git -C /repo diff > %s/patch.diff" % d)
        # lines of the original repository?
        orig = 0
        for f, old, new in edits:
            sh("git -C /repo diff %s HEAD -- %s" % (BASE, f))
            base = sh("git -C /repo show %s:%s" % (BASE, f))[1]
            for l in sh("git -C /repo diff -U0 -- %s" % f)[1].splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in base.split("\n"): orig += 1
        if not orig: return "touches no original line"
        if not tests(): return "tests fail"
        patched = demo(d)
    finally:
        sh("git -C /repo checkout -- ."); build()
    if kind in ("codec", "sim") and not os.path.exists(d + "/expected"):
        open(d + "/expected", "w").write("")
        # record the answers of the unchanged tree
        s = open(d + "/demo.sh").read()
        tgt = "ans" if kind == "codec" else "got"
        t = s.replace("diff \"$t/ans\"", "cp \"$t/ans\" \"$d/expected\"; diff \"$t/ans\"").replace("diff got", "cp got \"$d/expected\"; diff got")
        open("/tmp/seedrec.sh", "w").write(t.replace('$(cd "$(dirname "$0")" && pwd)', d))
        rc, out = sh("bash /tmp/seedrec.sh", cwd=R)
        if rc: return "recording failed " + out
        # now again with the change
        sh("git -C /repo apply %s/patch.diff" % d)
        try: build(); patched = demo(d)
        finally: sh("git -C /repo checkout -- ."); build()
    clean = demo(d)
    if clean[0] != 0: return "demo fails on the unchanged tree: " + clean[1][-500:]
    if patched[0] == 0: return "demo does not notice the change: " + patched[1][-500:]
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    return "ok  " + patched[1].strip().replace("\n", " / ")[:200]
def main():
    ids = sys.argv[1:] or list(SEEDS)
    bad = 0
    for i in ids:
        r = make(i); print(i, r, flush=True)
        if not r.startswith("ok"): bad += 1; shutil.rmtree(V + "/seeded/" + i, ignore_errors=True)
    sys.exit(bad > 0)
