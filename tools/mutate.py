"""Mutation campaign: changes one token of the sources in a scratch copy at a time and runs the mapped checks.

mutate.py FILE… [--n N] [--seed S] [--jobs J] [--list]   (files relative to /repo/sumpf; prints the survivors)
"""
import argparse
import ast
import concurrent.futures
import os
import random
import shutil
import subprocess
import sys
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SCRATCH = "/tmp/w/mut"
MAP = {
    "_data/_signals/_signal.py": "P01 P05 P09 P11 P06 P07 P04 P12 P28 P29 P10 P18",
    "_data/_spectrums/_spectrum.py": "P02 P11 P29 P06 P04 P12 P28 P05 P10",
    "_data/_spectrograms/_spectrogram.py": "P03 P08 P05 P04 P12 P29 P28 P07",
    "_data/_sampled_data.py": "P12 P01 P02 P03 P04 P29 P05",
    "_internal/_convolution.py": "P09 P28",
    "_internal/_interpolation.py": "P17 P14 P13",
    "_internal/_indexing.py": "P04",
    "_internal/_functions.py": "P01 P02 P07 P22 P12 P26",
    "_internal/_text.py": "P25",
    "_internal/_enums.py": "P17 P09 P18 P20",
    "_internal/_persistence/_functions.py": "P18 P21 P19",
    "_internal/_persistence/_auto_writer.py": "P18 P19 P21",
    "_internal/_persistence/_signal_readers.py": "P18 P21",
    "_internal/_persistence/_signal_writers.py": "P18 P21",
    "_internal/_persistence/_spectrum_readers.py": "P19 P21",
    "_internal/_persistence/_spectrum_writers.py": "P19 P21",
    "_internal/_persistence/_spectrogram_readers.py": "P19 P21",
    "_internal/_persistence/_spectrogram_writers.py": "P19 P21",
    "_internal/_persistence/_filter_readers.py": "P20 P21",
    "_internal/_persistence/_filter_writers.py": "P20 P21",
    "_data/_filters/_bands.py": "P17 P12 P13 P20",
    "_data/_filters/_delay.py": "P16 P12",
    "_data/_filters/_derivative.py": "P16 P12",
    "_data/_filters/_weighting.py": "P16 P12",
    "_data/_filters/_butterworth.py": "P15 P12",
    "_data/_filters/_bessel.py": "P15 P12",
    "_data/_filters/_chebyshev.py": "P15 P12",
    "_data/_filters/_base/_iir.py": "P15 P12",
    "_data/_filters/_base/_s.py": "P13 P12",
    "_data/_filters/_base/_functions.py": "P14 P13 P12",
    "_data/_filters/_base/_filter.py": "P13 P14 P12 P20 P28",
    "_data/_filters/_base/_terms/_base.py": "P13 P12 P20",
    "_data/_filters/_base/_terms/_unary.py": "P13 P12 P20",
    "_data/_filters/_base/_terms/_binary.py": "P13 P12 P20 P14",
    "_data/_filters/_base/_terms/_primitive.py": "P13 P17 P12 P20 P14",
    "_data/_spectrums/_constant.py": "P26 P12",
    "_data/_signals/_constant.py": "P26 P12",
    "_data/_spectrograms/_constant.py": "P26 P12",
    "_data/_spectrums/_rudinshapiro.py": "P26 P12",
    "_data/_signals/_waves.py": "P26 P12",
    "_data/_signals/_mls.py": "P26 P12",
    "_data/_signals/_energy_decay.py": "P11 P28 P12",
    "_data/_signals/_fade.py": "P26 P12",
    "_data/_signals/_windows.py": "P24 P12",
    "_data/_signals/_windows_scipy.py": "P24 P12",
    "_data/_signals/_noise.py": "P26 P12",
    "_data/_signals/_sweep.py": "P25 P12",
    "_blocks/_concatenate.py": "P22",
    "_blocks/_merge.py": "P23",
    "_blocks/_jack.py": "P27",
}
# functions, for which other properties are more appropriate than those of the file (substring of the function's name: properties)
FUNCTIONS = {
    "_data/_signals/_signal.py": [("algebra", "P01 P12"), ("__getitem__", "P04"), ("__repr__", "P12"), ("__str__", "P12"), ("__eq__", "P12"), ("__hash__", "P12"), ("__init__", "P12 P01"),
                                  ("__reversed__", "P05"), ("__abs__", "P05"), ("__neg__", "P05"), ("mod__", "P01"), ("invert", "P10"), ("time_samples", "P29"), ("duration", "P29"), ("pad", "P05"), ("shift", "P05"),
                                  ("__full_fourier", "P06"), ("block_wise", "P07"), ("short_time", "P07"), ("level_vs_time", "P11"), ("level", "P11"), ("convol", "P09 P12"), ("correlate", "P09"),
                                  ("load", "P18"), ("save", "P18"), ("", "P11 P06 P07 P12")],
    "_data/_spectrums/_spectrum.py": [("algebra", "P02 P12"), ("__getitem__", "P04"), ("__repr__", "P12"), ("__str__", "P12"), ("__eq__", "P12"), ("__hash__", "P12"), ("__init__", "P12 P02"), ("pad", "P05"), ("level", "P11"),
                                      ("inverse_fourier", "P06"), ("load", "P19"), ("save", "P19"), ("", "P02 P29 P12")],
    "_data/_spectrograms/_spectrogram.py": [("algebra", "P03 P12"), ("__getitem__", "P04"), ("__repr__", "P12"), ("__str__", "P12"), ("__eq__", "P12"), ("__hash__", "P12"), ("__init__", "P12 P03"), ("pad", "P05"), ("shift", "P05"),
                                            ("inverse_short", "P08"), ("load", "P19"), ("save", "P19"), ("", "P03 P29 P12")],
    "_internal/_functions.py": [("allocate", "P01"), ("get_window", "P07 P08"), ("sanitize", "P12"), ("scaling", "P07 P24")],
}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/", "*"], ast.Mod: ["//"], ast.Pow: ["*"]}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}


def mutants(path):
    """yields (description, new text)"""
    text = open(path).read()
    lines = text.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = text.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def change(a, b, new, n):
        old = raw[a:b].decode()
        return (f"{n.lineno} {owner.get(id(n), '')}: {old[:60]!r} -> {new[:60]!r}   [{lines[n.lineno - 1].strip()[:110]}]", (raw[:a] + new.encode() + raw[b:]).decode())

    tree = ast.parse(text)
    owner = {}
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.ClassDef)):
            for c in ast.walk(f):
                owner[id(c)] = f.name if isinstance(f, ast.FunctionDef) else owner.get(id(c), "")
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(id(n.value))
        if isinstance(n, ast.JoinedStr):
            for c in ast.walk(n):
                docs.add(id(c))
    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**"}[type(n.op)]
            for new in BIN[type(n.op)]:
                if mid.count(sym) == 1 and "#" not in mid:
                    yield change(a, b, mid.replace(sym, new), n)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            for new in CMP.get(type(n.ops[0]), ()):
                paren = raw[a:b].decode()
                if "(" in paren or ")" in paren:
                    continue
                yield change(a, b, f" {new} ", n)
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            mid = raw[a:b].decode()
            old, new = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if mid.count(old) == 1:
                yield change(a, b, mid.replace(old, new), n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, b = span(n)
            c = span(n.operand)[0]
            yield change(a, b, raw[c:b].decode(), n)
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            a, b = span(n)
            if n.value is True or n.value is False:
                yield change(a, b, str(not n.value), n)
            elif isinstance(n.value, int):
                yield change(a, b, str(n.value + 1), n)
                if n.value > 0:
                    yield change(a, b, str(n.value - 1), n)
            elif isinstance(n.value, float):
                yield change(a, b, repr(n.value * 1.01 + (0.01 if n.value == 0 else 0)), n)
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = span(n.test)
            if isinstance(n, ast.While):
                continue
            yield change(a, b, "(" + "True" + ")", n)
            yield change(a, b, "(" + "False" + ")", n)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and n.lineno == n.end_lineno and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            a, b = span(n)
            if isinstance(n, ast.AugAssign) or isinstance(n, ast.Expr):
                yield change(a, b, "pass", n)
        elif isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1 and k.lineno == k.end_lineno:
                    a, b = pos(k.lineno, k.col_offset), pos(k.end_lineno, k.end_col_offset)
                    # drop the keyword together with a comma
                    rest = raw[b:]
                    if rest[:2] == b", ":
                        yield change(a, b + 2, "", k)
                    elif raw[a - 2:a] == b", ":
                        yield change(a - 2, b, "", k)


def properties_for(file, description):
    name = description.split(":")[0].split(" ")[1]
    for part, props in FUNCTIONS.get(file, ()):
        if part in name:
            return props.split()
    return MAP[file].split()


def run(index, file, description, text, props, jobs):
    path = os.path.join(SCRATCH, f"m{index}")
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    shutil.copytree("/repo/sumpf", os.path.join(path, "sumpf"), ignore=shutil.ignore_patterns("__pycache__"))
    with open(os.path.join(path, "sumpf", file), "w") as f:
        f.write(text)
    env = {**os.environ, "VERIF_REPO": path, "VERIF_EVIDENCE_DIR": os.path.join(path, "ev"), "VERIF_REPLAY_DIR": os.path.join(path, "rp"),
           "VERIF_FAIL_FAST": "1", "VERIF_CASE_SECONDS": "15", "VERIF_SHRINK_SECONDS": "0.01", "VERIF_SEED": "1"}
    try:
        for p in props:
            r = subprocess.run([os.path.join(VERIF, "check"), p, "quick", "--jobs", str(jobs)], cwd=VERIF, env=env, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 1:
                return p, description
            if r.returncode == 2:
                return "ERR " + r.stdout.strip()[-200:].replace("\n", " | "), description
        return None, description
    finally:
        shutil.rmtree(path, ignore_errors=True)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("files", nargs="*")
    p.add_argument("--n", type=int, default=20)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--jobs", type=int, default=4)
    p.add_argument("--grep", default="")
    p.add_argument("--list", action="store_true")
    a = p.parse_args()
    work = []
    for file in a.files or MAP:
        full = os.path.join("/repo/sumpf", file)
        found = []
        for d, t in mutants(full):
            try:
                compile(t, file, "exec")
            except SyntaxError:
                continue
            if a.grep in d:
                found.append((d, t))
        total = len(found)
        random.Random(f"{a.seed}{file}").shuffle(found)
        found = found[:a.n]
        print(f"{file}: {len(found)} of {total}", flush=True)
        work.extend((file, d, t) for d, t in found)
    if a.list:
        for file, d, t in work:
            print(file, d)
        return
    killed = 0
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        futures = {ex.submit(run, i, f, d, t, properties_for(f, d), max(1, 8 // a.jobs)): f for i, (f, d, t) in enumerate(work)}
        for future in concurrent.futures.as_completed(futures):
            by, d = future.result()
            if by is None:
                print(f"SURVIVED {futures[future]}:{d}", flush=True)
            elif by.startswith("ERR"):
                print(f"ERROR {futures[future]}:{d}: {by}", flush=True)
            else:
                killed += 1
    print(f"{killed} of {len(work)} mutants killed")


if __name__ == "__main__":
    main()
