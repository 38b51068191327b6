#!/usr/bin/env python3
"""Creates and verifies planted bugs in /verif/seeded (development tool, no check uses it).

    plant.py make SPEC.py [ID...]     SPEC.py defines BUGS, a list of dicts with
                                      id, property, file, edits [(old, new)...], needs, breaks, demo
    plant.py verify [ID...] [--no-tests] [--no-check] [--tier quick|thorough] [--seeds 1,2]
"""
import argparse
import concurrent.futures
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEEDED = os.path.join(VERIF, "seeded")
SCRATCH = f"/tmp/w/plant/{os.getpid()}"
BASE = "934eb93"
DEMO_SH = """#!/bin/bash
# run with cwd = the repository, after the build; exits 0 if the behaviour is right
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""
ENV = {**os.environ, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
       "MPLBACKEND": "Agg", "MPLCONFIGDIR": "/tmp/w/mpl", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}


def sh(cmd, **kw):
    return subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def copy(name):
    path = os.path.join(SCRATCH, name)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    sh(["cp", "-a", REPO, path])
    return path


def blame_ok(patch):
    """the removed/changed lines (or the neighbours of inserted ones) stem from the original repository"""
    problems = []
    current = None
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            current = line[6:].strip()
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m.group(1)); continue
        if current is None or line.startswith(("---", "+++", "diff", "index")):
            continue
        if line.startswith("-"):
            out = sh(["git", "-C", REPO, "blame", "-L", f"{n},{n}", "HEAD", "--", current]).stdout
            commit = out.split()[0].lstrip("^")
            if not commit.startswith(BASE[:7]):
                problems.append(f"{current}:{n} {commit}")
            n += 1
        elif line.startswith("+"):
            pass
        elif line.startswith(" "):
            n += 1
    return problems


def make(spec_path, ids):
    spec = importlib.util.spec_from_file_location("spec", spec_path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    made = []
    for bug in mod.BUGS:
        if ids and bug["id"] not in ids:
            continue
        path = copy(bug["id"])
        edits = bug["edits"]
        if edits and isinstance(edits[0], str):
            edits = [edits]
        for e in edits:
            f, old, new = e if len(e) == 3 else (bug["file"], *e)
            full = os.path.join(path, f)
            text = open(full).read()
            if text.count(old) != 1:
                print(f"{bug['id']}: {text.count(old)} matches of {old!r} in {f}")
                break
            open(full, "w").write(text.replace(old, new))
        else:
            patch = sh(["git", "-C", path, "diff"]).stdout
            d = os.path.join(SEEDED, bug["id"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.py"), "w").write(bug["demo"].strip("\n") + "\n")
            if "import fakejack" in bug["demo"]:
                shutil.copy(os.path.join(VERIF, "vlib", "fakejack.py"), d)
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            made.append(bug["id"])
        shutil.rmtree(path, ignore_errors=True)
    return made


def stable():
    return json.load(open("/opt/vp/BASELINE.json"))["stable"]


def run_tests(path, bug):
    """runs the tests of the copy (without the JACK tests) and returns the failing ones"""
    xml = os.path.join(SCRATCH, bug + ".xml")
    env = {**ENV, "PYTHONPATH": "/opt/vp/plugin:" + path, "PATH": "/opt/venv/bin:" + ENV["PATH"]}
    out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "sumpf_hypothesis",
              "--rootdir=" + path, "-W", "ignore", "--timeout=180", "--continue-on-collection-errors",
              "-n", "8", "--doctest-glob=*.rst", "--doctest-modules", "--ignore=docs",
              "--ignore=tests/unavailable_modules", "--ignore=tests/tests/_blocks/test_jack.py",
              "-o", "junit_family=xunit2", "--junitxml=" + xml], cwd=path, env=env)
    if not os.path.exists(xml):
        return ["NO REPORT " + out.stdout[-300:]]
    passed = set()
    for c in ET.parse(xml).iter("testcase"):
        if not any(ch.tag in ("failure", "error", "skipped") for ch in c):
            passed.add(c.get("classname") + "::" + c.get("name"))
    os.unlink(xml)
    return [t for t in stable() if t not in passed and "test_jack" not in t and "test_correlate_with_single_channel" not in t]


def verify(bug, tests, check, tier, seeds):
    d = os.path.join(SEEDED, bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    patch = open(os.path.join(d, "patch.diff")).read()
    res = {"id": bug, "property": meta["property"]}
    problems = blame_ok(patch)
    if problems:
        res["blame"] = problems
    path = copy(bug)
    try:
        demo = os.path.join(SCRATCH, bug + ".demo")
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r0 = sh(["bash", os.path.join(demo, "demo.sh")], cwd=path, env=ENV, timeout=300)
        a = sh(["git", "-C", path, "apply", os.path.join(d, "patch.diff")])
        if a.returncode:
            res["apply"] = a.stdout[-300:]
        r1 = sh(["bash", os.path.join(demo, "demo.sh")], cwd=path, env=ENV, timeout=300)
        shutil.rmtree(demo, ignore_errors=True)
        res["demo"] = "ok" if (r0.returncode == 0 and r1.returncode != 0) else f"BAD {r0.returncode}/{r1.returncode} {r0.stdout[-300:]} {r1.stdout[-300:]}"
        res["demo_says"] = r1.stdout.strip().splitlines()[-1:] 
        if check:
            caught = []
            for seed in seeds:
                c = sh([os.path.join(VERIF, "check"), meta["property"], tier], cwd=VERIF,
                       env={**os.environ, "VERIF_REPO": path, "VERIF_SEED": str(seed),
                            "VERIF_EVIDENCE_DIR": os.path.join(SCRATCH, bug + ".ev"),
                            "VERIF_REPLAY_DIR": os.path.join(SCRATCH, bug + ".rp")})
                caught.append(c.returncode)
                if c.returncode not in (0, 1):
                    res["check_out"] = c.stdout[-500:]
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                if v:
                    res["first"] = v[0][:160]
            res["check"] = caught
        if tests:
            res["tests"] = run_tests(path, bug)
    finally:
        shutil.rmtree(path, ignore_errors=True)
        shutil.rmtree(os.path.join(SCRATCH, bug + ".ev"), ignore_errors=True)
        shutil.rmtree(os.path.join(SCRATCH, bug + ".rp"), ignore_errors=True)
    return res


def main():
    p = argparse.ArgumentParser()
    p.add_argument("mode", choices=["make", "verify", "both"])
    p.add_argument("args", nargs="*")
    p.add_argument("--no-tests", action="store_true")
    p.add_argument("--no-check", action="store_true")
    p.add_argument("--tier", default="quick")
    p.add_argument("--seeds", default="1")
    p.add_argument("--jobs", type=int, default=2)
    a = p.parse_intermixed_args()
    ids = a.args
    if a.mode in ("make", "both"):
        ids = make(a.args[0], a.args[1:])
        if a.mode == "make":
            return
    if not ids:
        ids = sorted(os.listdir(SEEDED))
    seeds = [int(s) for s in a.seeds.split(",")]
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        for f in concurrent.futures.as_completed([ex.submit(verify, b, not a.no_tests, not a.no_check, a.tier, seeds) for b in ids]):
            r = f.result()
            ok = r["demo"] == "ok" and not r.get("tests") and "blame" not in r and "apply" not in r
            print(("OK   " if ok else "BAD  ") + ("caught " if r.get("check") and all(c == 1 for c in r["check"]) else "MISSED " if "check" in r else "") + json.dumps(r), flush=True)


if __name__ == "__main__":
    main()
