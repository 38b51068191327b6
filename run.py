"""Entry point of all checks: run.py --property P01 [--tier quick|thorough] [--replay FILE] [--sub NAME] [--examples N]"""
import argparse
import os
import sys

ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
       "MKL_NUM_THREADS": "1", "NUMEXPR_NUM_THREADS": "1", "NUMEXPR_MAX_THREADS": "1", "PYTHONWARNINGS": "ignore"}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")    # the override is only for experiments in scratch copies
sys.path.insert(0, REPO)

import glob         # noqa: E402
import importlib    # noqa: E402
import json         # noqa: E402
import resource     # noqa: E402
import shutil       # noqa: E402
import tempfile     # noqa: E402
import time         # noqa: E402
import traceback    # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("--property", required=True)
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=None)
    parser.add_argument("--replay")
    parser.add_argument("--sub")
    parser.add_argument("--examples", type=int)
    parser.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    args = parser.parse_args()
    try:
        seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    scratch = tempfile.mkdtemp(prefix="verif_")
    os.environ["TMPDIR"] = scratch
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hypothesis")
    tempfile.tempdir = scratch
    cwd = os.getcwd()
    if args.replay:
        args.replay = os.path.abspath(args.replay)
    os.chdir(scratch)
    try:
        code = run(args, seed, scratch)
    except Exception:   # pylint: disable=broad-except
        traceback.print_exc()
        print("HARNESS-ERROR: the check could not be run")
        code = 2
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def run(args, seed, scratch):
    start = time.time()
    from vlib import core
    if args.property in ("P27", "P31"):
        from vlib import fakejack
        sys.modules["jack"] = fakejack  # the server is a deterministic stand-in, whose schedule is controlled by the check
    try:
        import sumpf
        real = os.path.realpath(sumpf.__file__)
        imported = real.startswith(os.path.realpath(REPO) + os.sep)
    except Exception as e:  # pylint: disable=broad-except
        # the code under test can't even be imported: nothing can be checked
        traceback.print_exc()
        print(f"HARNESS-ERROR: sumpf could not be imported ({type(e).__name__})")
        return 2
    if not imported:
        print(f"HARNESS-ERROR: sumpf was imported from {real}")
        return 2
    prop = args.property
    module = importlib.import_module(f"checks.{prop}")
    subs = module.SUBS
    by_name = {s.name: s for s in subs}
    if len(by_name) != len(subs):
        raise core.HarnessError("duplicate sub-check names")
    if args.sub:
        subs = [s for s in subs if s.name in args.sub.split(",")]
    replay_dir = os.environ.get("VERIF_REPLAY_DIR") or os.path.join(core.VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)

    if args.replay:
        with open(args.replay) as f:
            data = json.load(f)
        ctx = core.Ctx()
        message = core.run_case(by_name[data["sub"]], data["case"], ctx)
        if message is None:
            print("the case passes")
            return 0
        print(message)
        print(f"VIOLATION property={prop} replay={args.replay}")
        return 1

    # known findings and the regression corpus
    with open(os.path.join(core.VERIF, "known_findings.json")) as f:
        findings = json.load(f)
    known = [k for k in findings["known"] if k["property"] == prop]
    corpus = sorted(glob.glob(os.path.join(core.VERIF, "corpus", prop, "*.json")))
    tasks = []
    meta = []
    results = {}
    for i, path in enumerate(corpus):
        tasks.append((replay_task, (by_name, path, os.path.join(scratch, f"corpus{i}"))))
        meta.append(("corpus", path, os.path.join(scratch, f"corpus{i}"), None))
    for i, k in enumerate(known):
        path = os.path.join(scratch, f"known{i}.json")
        with open(path, "w") as f:
            json.dump(k, f)
        tasks.append((replay_task, (by_name, path, os.path.join(scratch, f"known{i}"))))
        meta.append(("known", k, os.path.join(scratch, f"known{i}"), None))
    for s in subs:
        n = s.quick if args.tier != "thorough" else (s.thorough or 15 * s.quick)
        if args.examples:
            n = args.examples
        shards = s.shards or max(1, min(8, n // 40))
        if args.tier == "thorough":
            shards = max(shards, min(32, n // 500))
        for shard in range(shards):
            count = n // shards + (1 if shard < n % shards else 0)
            result = os.path.join(scratch, f"{s.name}.{shard}.json")
            current = os.path.join(scratch, f"{s.name}.{shard}.current")
            tasks.append((core.run_shard, (prop, s, count, seed, shard, result, current)))
            meta.append(("sub", s, result, current))
    # long shards first
    order = sorted(range(len(tasks)), key=lambda i: -(tasks[i][1][2] if meta[i][0] == "sub" else 10 ** 9))
    tasks = [tasks[i] for i in order]
    meta = [meta[i] for i in order]

    violations = []
    errors = []
    evaluations = rejected = 0
    nontrivial = {}
    labels = {}
    samples = {}
    seconds = {}
    known_lines = []
    found = {}
    parallel = core.Parallel(tasks, args.jobs)
    for index, status in parallel:
        kind, obj, result_path, current_path = meta[index]
        if kind in ("corpus", "known"):
            evaluations += 1
            message = None
            if os.path.exists(result_path):
                with open(result_path) as f:
                    message = json.load(f)
            elif os.WIFSIGNALED(status):
                message = f"the process was killed by signal {os.WTERMSIG(status)}"
            else:
                errors.append(f"replaying {obj} failed with status {status}")
                continue
            if kind == "corpus" and message is not None:
                violations.append((obj, message))
            elif kind == "known" and message is not None:
                known_lines.append(f"KNOWN-FINDING: property={prop} {obj['what']}")
            continue
        if os.path.exists(result_path):
            with open(result_path) as f:
                r = json.load(f)
            evaluations += r["evaluations"]
            rejected += r["rejected"]
            nontrivial.setdefault(obj.name, set()).update(r["nontrivial"])
            for k, v in r["labels"].items():
                labels[f"{obj.name}:{k}"] = labels.get(f"{obj.name}:{k}", 0) + v
            for s in r["samples"]:
                if len(samples.setdefault(obj.name, [])) < 2:
                    samples[obj.name].append(s)
            seconds[obj.name] = seconds.get(obj.name, 0.0) + r["seconds"]
            if r["error"]:
                errors.append(f"{obj.name}: {r['error']}")
            if r["violation"]:
                found.setdefault(obj.name, []).append(r["violation"])
                fail_fast = bool(os.environ.get("VERIF_FAIL_FAST"))     # for the mutation campaign
                parallel.cancel([i for i, m in enumerate(meta) if (m[1] is obj or fail_fast) and i != index])
        elif os.WIFSIGNALED(status) and os.path.exists(current_path):
            # the interpreter itself died while running the code under test
            with open(current_path) as f:
                try:
                    case = json.loads(f.read())
                except ValueError:
                    errors.append(f"{obj.name}: killed by signal {os.WTERMSIG(status)} before the first case")
                    continue
            if os.WTERMSIG(status) in (9, 15):
                errors.append(f"{obj.name}: killed by signal {os.WTERMSIG(status)}")
            else:
                found.setdefault(obj.name, []).append({"case": case, "message": f"the interpreter died with signal {os.WTERMSIG(status)}"})
                parallel.cancel([i for i, m in enumerate(meta) if m[1] is obj and i != index])
        else:
            errors.append(f"{obj.name}: worker ended with status {status}")

    if not args.examples:
        for s in subs:
            if not nontrivial.get(s.name) and s.name not in found and not found:
                errors.append(f"{s.name}: no case has been decided")
    for name, items in found.items():
        best = min(items, key=lambda v: len(core.dumps(v["case"])))
        violations.append(save_replay(replay_dir, prop, name, best))
    for line in known_lines:
        print(line)
    total_nontrivial = sum(len(v) for v in nontrivial.values())
    if not args.sub and not args.examples:
        evidence = {
            "property": prop,
            "tier": "thorough" if args.tier == "thorough" else "quick",
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": total_nontrivial,
                "rule": " | ".join(f"{s.name}: {s.rule}" for s in module.SUBS),
                "samples": [{"sub": k, "case": c} for k, v in sorted(samples.items()) for c in v][:40],
                "per_sub_nontrivial": {k: len(v) for k, v in sorted(nontrivial.items())},
                "rejected_cases": rejected,
                "labels": dict(sorted(labels.items())),
                "regression_cases_replayed": len(corpus) + len(known),
                "cpu_seconds_per_sub": {k: round(v, 1) for k, v in sorted(seconds.items())},
                "exhaustive": False,
            },
            "assumptions": getattr(module, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - start, 2),
            "violations": len(violations),
        }
        evidence_dir = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(core.VERIF, "evidence")    # the override is only for experiments
        os.makedirs(evidence_dir, exist_ok=True)
        path = os.path.join(evidence_dir, f"{prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + ".tmp", path)
    print(f"{prop} [{args.tier}, seed {seed}]: {evaluations} cases, {total_nontrivial} distinct non-trivial, "
          f"{rejected} rejected, {len(violations)} violations, {time.time() - start:.1f} s")
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in sorted(seconds.items(), key=lambda x: -x[1]):
            print(f"   {k}: {v:.1f} s cpu, {len(nontrivial.get(k, ()))} non-trivial")
        for k, v in sorted(labels.items()):
            print(f"   {k}: {v}")
    if violations:
        for path, message in violations:
            print(f"{os.path.basename(path)}: {message}")
        for path, message in violations:
            print(f"VIOLATION property={prop} replay={path}")
        for e in errors:
            print("HARNESS-ERROR:", e)
        return 1
    if errors:
        for e in errors:
            print("HARNESS-ERROR:", e)
        return 2
    return 0


def save_replay(replay_dir, prop, sub, violation):
    path = os.path.join(replay_dir, f"{prop}_{sub}.json")
    if not violation["message"]:
        violation["message"] = "violated"
    with open(path, "w") as f:
        json.dump({"property": prop, "sub": sub, "case": violation["case"], "message": violation["message"]}, f, indent=1)
    return path, violation["message"]


def replay_task(by_name, path, result_path):
    from vlib import core
    import signal
    with open(path) as f:
        data = json.load(f)
    ctx = core.Ctx()
    signal.signal(signal.SIGALRM, core._watchdog)
    signal.alarm(core.CASE_SECONDS)
    try:
        message = core.run_case(by_name[data["sub"]], data["case"], ctx)
    except core.Hang as e:
        message = str(e)
    signal.alarm(0)
    if ctx.tempdir is not None:
        shutil.rmtree(ctx.tempdir, ignore_errors=True)
    with open(result_path, "w") as f:
        json.dump(message, f)


if __name__ == "__main__":
    main()
