#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import importlib
have = set()
for mod in ("dec", "sim", "res", "spf", "par", "ship"):
    if os.path.exists(os.path.join(V, "lib", mod + ".py")): have |= set(importlib.import_module(mod).CHECKS)
TECH = "TLA+ specification model-checked with TLC; %s"
NOTE = {
 "dec": ("records of real codec calls validated by TLC against the specification (exact big-integer likelihood arithmetic)",
         "The specification is model-checked at a small bound, then every recorded call of the real code (ASan+UBSan build of the working tree) is decided by TLC against it with exact integer arithmetic; assurance is exhaustive over the specification at its bound and sampled (random plus structured) over the real code's inputs. Trusts TLC, the BigW Java override, the C driver."),
 "sim": ("traces of the real simulator with a scripted codec validated by TLC against the specification",
         "The specification is model-checked exhaustively at a small bound; recorded runs of the real simulator linked with a scripted mock codec are accepted or rejected by TLC. Trusts TLC, the mock codec and driver; sampled over parameter files and outcome scripts."),
 "res": ("behaviours of the specification (schedules, crash and fault points) replayed into the real code and its file states validated by TLC",
         "The save protocol is model-checked exhaustively over processes, interleavings, crash and failure points; schedules are replayed into the real code by a scheduler that stops its own children (ptrace) before every file operation, in a scratch directory and the resulting files are validated by TLC. Trusts TLC and the scheduler."),
 "spf": ("parameter files laid out by the specification run through the real parser/simulators and validated by TLC",
         "The tokenizer and parameter semantics are specified and checked in TLA+; recorded behaviour of the real parser, codecs and simulators on generated files is decided by TLC. Sampled over files. Trusts TLC and the drivers."),
 "par": ("parameter files and their meaning specified in TLA+ and checked against recorded initialisations and runs of the real code",
         "The meaning of parameter texts is specified in TLA+ and explored at a small bound; recorded initialisations, runs and uses of the real codecs and simulators (ASan+UBSan build of the working tree) on generated parameter texts are decided by TLC. Sampled over texts, systematic over key subsets, cuts and boundary values. Trusts TLC and the drivers."),
 "ship": ("the meaning of the shipped files' names specified in TLA+ and checked by TLC against the files as the real reader, codecs and simulators take them",
         "All shipped files are covered (nothing is sampled but the messages sent through each code). Trusts TLC, the BigW Java override and the drivers."),
}
SPECIAL = {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": "check not built yet (the family applies; see DESIGN.md)"}); continue
    for mod in ("dec", "sim", "res", "spf", "par", "ship"):
        if os.path.exists(os.path.join(V, "lib", mod + ".py")) and i in importlib.import_module(mod).CHECKS: k = mod
    checks.append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
                   "technique": TECH % NOTE[k][0], "level": "model_checking", "level_note": NOTE[k][1]})
json.dump({"version": 1,
  "setup_cmd": "mkdir -p build/classes && javac -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -d build/classes java/BigW.java",
  "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: the harness links the objects of the working tree with its own drivers; time() is wrapped at link time."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
