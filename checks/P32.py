"""Results depend on nothing but the arguments: neither on what has been computed before, nor on other threads"""

import os
import shutil
from hypothesis import strategies as st
import numpy
import sumpf
from checks import P15, P18, P19, P20, P24, P25, P26, P28
from vlib import filters, gen, isolate
from vlib.core import Reject, Sub, dumps, fail

# ---------------------------------------------------------------------------
# the items: descriptions of something, that is computed with the package
# ---------------------------------------------------------------------------

FREQUENCIES = numpy.array([0.3, 1.0, 20.0, 440.0, 1000.0, 7000.0, 21000.0])
WEIGHTINGS = ("AWeighting", "BWeighting", "CWeighting", "DWeighting", "UWeighting", "ITU468Weighting")


def _failing():
    """computations, that raise exceptions"""
    signal = sumpf.Signal(channels=numpy.array([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]]), sampling_rate=100.0)
    spectrum = sumpf.Spectrum(channels=numpy.array([[1.0, 2.0j, 3.0]]), resolution=2.0)
    return {
        "resolution": lambda: spectrum + sumpf.Spectrum(channels=numpy.array([[1.0, 2.0, 3.0]]), resolution=3.0),
        "sampling rate": lambda: signal + sumpf.Signal(channels=numpy.array([[1.0, 2.0, 3.0]]), sampling_rate=44.0),
        "concatenate": lambda: sumpf.Concatenate([signal, spectrum]).output(),
        "merge": lambda: sumpf.Merge([signal, spectrum]).output(),
        "load": lambda: sumpf.Signal.load("/nonexistent/file.wav"),
        "window": lambda: sumpf.KaiserWindow(beta="x", length=10),
        "filter": lambda: sumpf.ButterworthFilter(order="x"),
        "sweep": lambda: sumpf.ExponentialSweep(start_frequency="x", length=20),
        "noise": lambda: sumpf.NormalNoise(standard_deviation="x", seed=1, length=5),
        "stft": lambda: signal.short_time_fourier_transform(window="x"),
    }


FAILING = sorted(_failing())


def fade(c):
    arguments = {f"{n}_interval": tuple(c[n]) if isinstance(c[n], list) else c[n] for n in ("rise", "fall") if n in c}
    return sumpf.Fade(function=P26.FUNCTIONS[c["function"]], sampling_rate=c["sr"], length=c["n"], **arguments)


def file_roundtrip(obj, fmt, path):
    obj.save(path) if fmt is None else obj.save(path, getattr(obj.file_formats, fmt))
    for base in (sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram, sumpf.Bands, sumpf.Filter):
        if isinstance(obj, base):
            return base.load(path)
    raise TypeError(type(obj))


def _sweep(c):
    sweep = getattr(sumpf, c["class"])(**P25.kwargs(c["sweep"]))
    if c["what"] == "inverse":
        return sweep.inverse()
    if c["what"] == "frequency":
        return [numpy.atleast_1d(sweep.instantaneous_frequency(numpy.arange(5) / sweep.sampling_rate())), numpy.array([sweep.minimum_frequency(), sweep.maximum_frequency()])]
    if c["what"] == "harmonic":
        return sweep.harmonic_impulse_response(sumpf.Signal(channels=numpy.linspace(-1.0, 1.0, 2 * sweep.length()).reshape(2, -1), sampling_rate=sweep.sampling_rate()), 2)
    return sweep


MEASURES = {"bandwidth": lambda w, c: w.bandwidth(c["oversampling"]), "scalloping_loss": lambda w, c: w.scalloping_loss(), "recommended_overlap": lambda w, c: w.recommended_overlap(),
            "scaling_factor": lambda w, c: w.scaling_factor(c["overlap"]), "amplitude_flatness": lambda w, c: w.amplitude_flatness(c["overlap"]), "power_flatness": lambda w, c: w.power_flatness(c["overlap"]),
            "overlap_correlation": lambda w, c: w.overlap_correlation(c["overlap"]),
            "fourier": lambda w, c: SIGNAL.fourier_transform(window=w, overlap=c["overlap"]), "stft": lambda w, c: SIGNAL.short_time_fourier_transform(window=w, overlap=c["overlap"])}
SIGNAL = sumpf.Signal(channels=numpy.sin(numpy.arange(300.0) ** 1.3).reshape(2, -1), sampling_rate=100.0, offset=3)


def _measure(c):
    """computes something with a temporary window"""
    result = MEASURES[c["what"]](P24.make(c["case"]), c)
    return result if isinstance(result, (sumpf.Spectrum, sumpf.Spectrogram)) else numpy.atleast_1d(result)


def _collection(c, pool):
    block = getattr(sumpf, c["class"])([pool[i] for i in c["x"]])
    for i in c["more"]:
        block.add(pool[i])
    return block.output()


COMPUTE = {
    "unary": lambda c, pool, path: P28.UNARY[c["kind"]][c["op"]](pool[c["x"]], c["a"]),
    "binary": lambda c, pool, path: P28.BINARY[c["i"]][2](pool[c["x"]], pool[c["y"]]),
    "index": lambda c, pool, path: pool[c["x"]],
    "call": lambda c, pool, path: pool[c["x"]](numpy.array(c["f"])) if len(c["f"]) > 1 else pool[c["x"]](c["f"][0]),
    "sampled": lambda c, pool, path: pool[c["x"]].spectrum(resolution=c["r"], length=c["n"]),
    "measure": lambda c, pool, path: _measure(c),
    "collection": lambda c, pool, path: _collection(c, pool),
    "window": lambda c, pool, path: P24.make(c["case"]),
    "sweep": lambda c, pool, path: _sweep(c),
    "noise": lambda c, pool, path: getattr(sumpf, c["class"])(seed=c["seed"], sampling_rate=c["sr"], length=c["n"], **c["p"]),
    "wave": lambda c, pool, path: getattr(sumpf, c["case"]["class"])(frequency=c["case"]["f"], phase=c["case"]["phase"], sampling_rate=c["case"]["sr"], length=c["case"]["n"]),
    "fade": lambda c, pool, path: fade(c["case"]),
    "mls": lambda c, pool, path: sumpf.MaximumLengthSequence(sampling_rate=c["case"]["sr"], **{k: c["case"][k] for k in ("bits", "seed", "length") if k in c["case"]}),
    "rudin": lambda c, pool, path: sumpf.RudinShapiroNoiseSpectrum(start_frequency=c["case"]["start"], stop_frequency=c["case"]["stop"], resolution=c["case"]["res"], length=c["case"]["n"]),
    "iir": lambda c, pool, path: P15.build(c["case"]),
    "weighting": lambda c, pool, path: getattr(sumpf, c["class"])(),
    "signal file": lambda c, pool, path: file_roundtrip(P18.make(c["case"])[0], c["f"], path + c["ext"]),
    "data file": lambda c, pool, path: file_roundtrip(P19.make(c["case"])[0], c["f"], path + c["ext"]),
    "filter file": lambda c, pool, path: file_roundtrip(filters.make(c["case"]), c["f"], path + c["ext"]),
    "bands file": lambda c, pool, path: file_roundtrip(P20.make_bands(c["case"]), c["f"], path + c["ext"]),
    "fails": lambda c, pool, path: _failing()[c["what"]](),
}


def compute(item, pool, path):
    """computes an item and returns the result as it is or the exception"""
    try:
        return COMPUTE[item["k"]](item, pool, path)
    except Exception as e:      # pylint: disable=broad-except
        return e


def digest(x):
    """returns a description of a result, that does not refer to the package"""
    if isinstance(x, Exception):
        return ("raised", type(x).__name__), None, []
    with numpy.errstate(all="ignore"):
        try:
            if isinstance(x, sumpf.Filter):
                arrays = [numpy.array(x(FREQUENCIES))]
                meta = ("Filter", type(x).__name__)
                labels = list(x.labels())
            else:
                arrays, labels, meta = P28.channel_results(x)
                meta = tuple(meta) + (type(x).__name__,)
        except ZeroDivisionError:
            return ("undefined",), None, []
    return meta, labels, [numpy.array(a) for a in arrays]


# ---------------------------------------------------------------------------
# the processes
# ---------------------------------------------------------------------------


def operands(case, item):
    used = {item[k] for k in ("x", "y") if k in item and isinstance(item[k], int)} | set(item.get("more", ())) | set(item["x"] if isinstance(item.get("x"), (list, tuple)) else ())
    return {i: P28._make(case["pool"][i]) for i in used}


class Folder:
    def __init__(self, parent):
        self.path = os.path.join(parent, str(os.getpid()))

    def __enter__(self):
        os.mkdir(self.path)
        return self.path

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors=True)


def run_alone(case, item, parent, count):
    """:returns: the digest of an item, that is the only thing, that is computed in the process, and the number of executed lines"""
    with Folder(parent) as folder, numpy.errstate(all="ignore"):
        pool = operands(case, item)
        path = os.path.join(folder, "file")
        if not count:
            return digest(compute(item, pool, path)), 0
        stepper = isolate.Stepper([lambda: digest(compute(item, pool, path))])
        stepper.finish()
        return stepper.results[0], stepper.lines[0]


def run_sequence(case, parent):
    """:returns: the digests of all items, when they have been computed and when everything is done"""
    with Folder(parent) as folder, numpy.errstate(all="ignore"):
        pool = None if case["drop"] else {i: P28._make(x) for i, x in enumerate(case["pool"])}
        results = []
        digests = []
        for n in case["order"]:
            if case["drop"]:
                # the operands and the results exist only temporarily, so that other objects may get their addresses
                result = digest(compute(case["items"][n], operands(case, case["items"][n]), os.path.join(folder, "file")))
                digests.append(result)
            else:
                results.append(compute(case["items"][n], pool, os.path.join(folder, "file")))
                digests.append(digest(results[-1]))
        return digests, digests if case["drop"] else [digest(r) for r in results]


def run_interleaved(case, schedules, parent):
    """:returns: the digests of the two items for each of the schedules"""
    with Folder(parent) as folder, numpy.errstate(all="ignore"):
        pool = {i: P28._make(x) for i, x in enumerate(case["pool"])}
        for n in (0, 1):
            os.mkdir(os.path.join(folder, str(n)))
        functions = [lambda n=n: digest(compute(case["items"][n], pool, os.path.join(folder, str(n), "file"))) for n in (0, 1)]
        result = []
        for schedule in schedules:
            stepper = isolate.Stepper(functions)
            interrupted = False
            for n, lines in schedule:
                stepper.step(n, lines)
                interrupted |= not stepper.finished[n]
            stepper.finish()
            result.append((stepper.results, interrupted))
        return result


def run_storm(case, stride, parent):
    """:returns: the digest of the first item and those of the second one"""
    with Folder(parent) as folder, numpy.errstate(all="ignore"):
        pool = {i: P28._make(x) for i, x in enumerate(case["pool"])}
        for n in (0, 1):
            os.mkdir(os.path.join(folder, str(n)))
        first, second = (lambda n=n: digest(compute(case["items"][n], pool, os.path.join(folder, str(n), "file"))) for n in (0, 1))
        return isolate.storm(first, second, stride)


SERVER = []


def server():
    if not SERVER:
        SERVER.append(isolate.Server({"alone": run_alone, "sequence": run_sequence, "interleaved": run_interleaved, "storm": run_storm}))
    return SERVER[0]


# ---------------------------------------------------------------------------
# comparing results
# ---------------------------------------------------------------------------


def differs(actual, expected):
    """returns None or a description of the difference"""
    (ma, la, xa), (me, le, xe) = actual, expected
    if ma != me:
        return f"{ma} instead of {me}"
    if la != le:
        return f"the labels {la} instead of {le}"
    if len(xa) != len(xe):
        return f"{len(xa)} channels instead of {len(xe)}"
    for i, (a, e) in enumerate(zip(xa, xe)):
        if a.shape != e.shape or a.dtype != e.dtype:
            return f"an array with the shape {a.shape} and the type {a.dtype} instead of {e.shape} and {e.dtype}"
        if a.tobytes() == e.tobytes():
            continue
        with numpy.errstate(all="ignore"):
            finite = numpy.abs(e[numpy.isfinite(e)])
            scale = float(finite.max()) if finite.size else 0.0
            same = (a == e) | (numpy.isnan(a) & numpy.isnan(e)) | (numpy.abs(a - e) <= 1e-9 * scale + 1e-290)
        if not same.all():
            k = tuple(int(j) for j in numpy.argwhere(~same)[0])
            return f"channel {i}, sample {k}: {a[k]} instead of {e[k]}"
    return None


# ---------------------------------------------------------------------------
# generating items
# ---------------------------------------------------------------------------

KINDS = ["unary"] * 9 + ["binary"] * 5 + ["index", "call", "call", "sampled", "collection", "window", "window", "measure", "measure", "sweep", "sweep", "sweep", "noise", "wave", "fade", "mls", "rudin", "iir", "iir", "weighting",
                          "signal file", "data file", "filter file", "bands file", "fails"]


FREQUENCY_LISTS = st.lists(st.sampled_from([0.0, 0.25, 1.0, 20.0, 440, 1000.0, 7000.0, 21000.0]), min_size=1, max_size=4)
OVERLAPS = st.sampled_from([0, 1, 0.5, 0.25, 0.75, 0.1, 2])


def _put(pool, x):
    pool.append(x)
    return len(pool) - 1


@st.composite
def items(draw, pool, kind=None):
    k = kind or draw(st.sampled_from(KINDS))
    item = {"k": k}
    if k == "unary":
        t = draw(st.sampled_from(["Signal", "Signal", "Spectrum", "Spectrogram", "Filter"]))
        known = [i for i, x in enumerate(pool) if x["t"] == t]
        x = draw(st.sampled_from(known)) if known and draw(st.booleans()) else _put(pool, draw(P28.operand(t, draw(st.integers(1, 3)))))
        item.update(kind=t, op=draw(st.sampled_from(sorted(P28.UNARY[t]))), x=x, a=draw(P28.arguments))
    elif k == "binary":
        c = draw(P28.binary_cases())
        item.update(i=c["i"], name=c["name"], x=_put(pool, c["x"]), y=_put(pool, c["y"]))
    elif k == "index":
        item["x"] = _put(pool, draw(P28.operand(draw(st.sampled_from(["Signal", "Filter"])), 2)))
    elif k in ("call", "sampled"):
        known = [i for i, x in enumerate(pool) if x["t"] == "Filter"]
        item["x"] = draw(st.sampled_from(known)) if known and draw(st.booleans()) else _put(pool, draw(P28.operand("Filter", draw(st.integers(1, 3)))))
        if k == "call":
            item["f"] = draw(FREQUENCY_LISTS)
        else:
            item.update(r=draw(gen.resolution), n=draw(st.integers(1, 9)))
    elif k == "collection":
        t = draw(st.sampled_from(["Signal", "Spectrum", "Spectrogram", "Filter"]))
        item["class"] = draw(st.sampled_from(["Merge", "Concatenate"])) if t in ("Signal", "Spectrogram") else "Merge"
        first = draw(P28.operand(t, 2))
        n = [_put(pool, first)]
        for _ in range(draw(st.integers(0, 2))):
            n.append(_put(pool, draw(P28.operand(t, 2, like=None if t == "Filter" else first))))
        m = draw(st.integers(0, len(n)))
        item.update(x=n[0:m], more=n[m:])
    elif k == "measure":
        item.update(what=draw(st.sampled_from(sorted(MEASURES))), case=draw(P24.windows(minimum=2)), oversampling=draw(st.integers(1, 4)), overlap=draw(OVERLAPS))
    elif k == "window":
        item["case"] = draw(P24.windows())
    elif k == "sweep":
        what = draw(st.sampled_from(["sweep", "sweep", "sweep", "inverse", "harmonic", "frequency"]))
        item.update({"class": draw(st.sampled_from(["LinearSweep", "ExponentialSweep"])), "what": what,
                     "sweep": draw(P25.sweeps(swap=False)) if what == "sweep" else draw(P25.sweeps(lengths=st.integers(2, 400), interval=False, swap=False))})
    elif k == "noise":
        name = draw(st.sampled_from(sorted(P26.NOISES)))
        item.update({"class": name, "seed": draw(st.integers(0, 5)), "sr": draw(gen.sampling_rate), "n": draw(st.integers(1, 50)), "p": draw(P26.NOISES[name][1]) if draw(st.booleans()) else {}})
    elif k in ("wave", "fade", "mls", "rudin", "iir"):
        item["case"] = draw({"wave": P26.wave_cases, "fade": P26.fade_cases, "mls": P26.mls_cases, "rudin": P26.rudin_shapiro_cases, "iir": P15.case_strategy}[k]())
        if k == "mls" and item["case"]["seed"] is None:
            item["case"]["seed"] = draw(st.integers(0, 5))
    elif k == "weighting":
        item["class"] = draw(st.sampled_from(WEIGHTINGS))
    elif k == "signal file":
        fmt = draw(st.sampled_from(P18.ALL))
        item.update(f=fmt, ext=draw(st.sampled_from(P18.extensions(fmt))), case=draw(P18.signal_cases(fmt)))
    elif k == "data file":
        fmt, ext = draw(st.sampled_from([("TEXT_CSV", ".csv"), ("TEXT_JSON", ".json"), ("NUMPY_NPZ", ".npz"), ("NUMPY_NPY", ".npy"), ("PYTHON_PICKLE", ".pickle"), (None, ".npz")]))
        item.update(f=fmt, ext=ext, case=draw(P19.objects(draw(st.sampled_from(["Spectrum", "Spectrogram"])), fmt or "NUMPY_NPZ")))
    elif k == "filter file":
        fmt = draw(st.sampled_from(P20.FILTER))
        item.update(f=fmt, ext=draw(st.sampled_from(P20.FILTER_EXTENSIONS[fmt])), case=draw(filters.filters(max_leaves=3)))
    elif k == "bands file":
        c = draw(P20.bands_cases())
        item.update(f=c["f"], ext=c["ext"], case=c)
    elif k == "fails":
        item["what"] = draw(st.sampled_from(FAILING))
    return item


def _similar_operand(draw, x, change=None):
    """an operand, that has the same shape as the given one, but other values or another sampling"""
    x = dict(x)
    change = change or draw(st.sampled_from(["values", "values", "sampling", "labels"]))
    if change == "values" and "a" in x:
        x["a"] = {"shape": x["a"]["shape"], "seed": draw(gen.seed), "kind": draw(st.sampled_from(["normal", "positive"])), "scale": 1.0}
        if x["t"] != "Signal":
            x["a"]["c"] = 1
    elif change == "sampling" and "a" in x:
        k = draw(st.sampled_from([k for k in ("sr", "r") if k in x]))
        x[k] = draw(gen.sampling_rate if k == "sr" else gen.resolution)
        if "o" in x and draw(st.booleans()):
            x["o"] = draw(gen.offsets)
    elif "l" in x:
        x["l"] = draw(gen.labels(len(x["c"]) if "a" not in x else x["a"]["shape"][0]))
    return x


SIMILAR = {"window": ("class", "sr", "sym", "p", "n"), "measure": ("class", "sr", "sym", "p", "n"), "wave": ("class", "sr", "phase"), "fade": ("sr", "function"), "mls": ("sr", "seed"), "rudin": ("res",), "iir": ("fc", "hp", "order"),
           "signal file": ("seed", "sr", "o"), "data file": ("seed", "r", "sr", "o", "kind"), "noise": ("seed", "sr", "n")}


@st.composite
def similar(draw, item, pool):
    """a variant of the given item, that differs from it in only few aspects"""
    k = item["k"]
    result = dict(item)
    if k == "unary":
        if draw(st.booleans()):
            result["x"] = _put(pool, _similar_operand(draw, pool[item["x"]]))
        else:
            a = dict(item["a"])
            other = draw(P28.arguments)
            for key in draw(st.lists(st.sampled_from(sorted(a)), min_size=1, max_size=3, unique=True)):
                a[key] = other[key]
            result["a"] = a
    elif k == "binary":
        key = draw(st.sampled_from(["x", "y"]))
        result[key] = _put(pool, _similar_operand(draw, pool[item[key]]))
    elif k == "call":
        result["f"] = list(reversed(item["f"])) if draw(st.booleans()) else draw(FREQUENCY_LISTS)
    elif k == "sampled":
        result["r"] = draw(gen.resolution)
    elif k == "measure" and draw(st.booleans()):
        result[draw(st.sampled_from(["oversampling", "overlap"]))] = draw(st.sampled_from([1, 2]))
    elif k == "collection":
        result["x"], result["more"] = list(item["more"]), list(item["x"])
    elif k == "sweep":
        other = draw(P25.sweeps(swap=False))
        sweep = dict(item["sweep"])
        key = draw(st.sampled_from(["phase", "sr", "f", "class"]))
        if key == "class":
            result["class"] = "LinearSweep" if item["class"] == "ExponentialSweep" else "ExponentialSweep"
        elif key == "f":
            sweep["f"] = [sweep["f"][0] * draw(st.sampled_from([0.5, 0.9])), sweep["f"][1]]
        elif key == "sr":
            sweep["sr"] = sweep["sr"] * 2
        else:
            sweep[key] = other[key]
        result["sweep"] = sweep
    elif k == "noise":
        result[draw(st.sampled_from(["seed", "n"]))] = draw(st.integers(1, 20))
    elif k in SIMILAR:
        new = draw(items([], k))["case"]
        c = dict(item["case"])
        keys = [x for x in SIMILAR[k] if x in c and x in new]
        key = draw(st.sampled_from(keys)) if keys else None
        if key == "class" and k in ("window", "measure"):
            key = "sr"
        if key == "n":
            c["n"] = c["n"] + 1 if isinstance(c["plateau"], float) or c["plateau"] <= c["n"] else c["n"]
        elif key is not None:
            c[key] = new[key]
        if c.get("class") == "SlepianWindow":
            c["p"] = item["case"]["p"]
        result["case"] = c
    else:
        result = draw(items(pool, k))
    return result


@st.composite
def history_cases(draw):
    pool = []
    chosen = [draw(items(pool))]
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 2)):
            chosen.append(draw(similar(draw(st.sampled_from(chosen)), pool)))
        else:
            chosen.append(draw(items(pool)))
    order = draw(st.permutations(list(range(len(chosen)))))
    order = list(order) + draw(st.lists(st.integers(0, len(chosen) - 1), min_size=1, max_size=3))
    return {"pool": pool, "items": chosen, "order": order, "drop": draw(st.booleans())}


# the thread, that is started first and the per milles of its lines, after which the threads are switched
SCHEDULES = st.tuples(st.integers(0, 1), st.one_of(*[st.lists(st.integers(0, 1000), min_size=n, max_size=n) for n in (1, 1, 1, 2, 3)]))


@st.composite
def interleave_cases(draw, storm=False):
    pool = []
    a = draw(items(pool))
    form = draw(st.sampled_from(["same", "similar", "similar", "similar", "other"]))
    b = a if form == "same" else draw(similar(a, pool)) if form == "similar" else draw(items(pool))
    if storm:
        return {"pool": pool, "items": [a, b], "most": draw(st.integers(5, 120))}
    return {"pool": pool, "items": [a, b], "schedules": draw(st.lists(SCHEDULES, min_size=1, max_size=24))}


OPERATIONS = [(t, op) for t in sorted(P28.UNARY) for op in sorted(P28.UNARY[t])] + [("binary", i) for i in range(len(P28.BINARY))]


@st.composite
def operation_cases(draw):
    """an operation on different operands, that have the same shapes, and with the same parameters"""
    pool = []
    t, op = draw(st.sampled_from(OPERATIONS))
    if t == "binary":
        c = draw(P28.binary_cases(op))
        a = {"k": "binary", "i": c["i"], "name": c["name"], "x": _put(pool, c["x"]), "y": _put(pool, c["y"])}
    else:
        a = {"k": "unary", "kind": t, "op": op, "x": _put(pool, draw(P28.operand(t, draw(st.integers(1, 3))))), "a": draw(P28.arguments)}
    b = dict(a)
    for key in ("x", "y"):
        if key in a:
            b[key] = _put(pool, _similar_operand(draw, pool[a[key]], "values"))
    return {"pool": pool, "items": [a, b], "most": draw(st.integers(20, 200))}


@st.composite
def order_cases(draw):
    pool = []
    kinds = draw(st.one_of(st.just([None]), st.lists(st.sampled_from(sorted(set(KINDS))), min_size=1, max_size=2)))
    chosen = []
    for _ in range(draw(st.integers(1, 3))):
        family = [draw(items(pool, draw(st.sampled_from(kinds))))]
        for _ in range(draw(st.integers(1, 4))):
            family.append(draw(similar(draw(st.sampled_from(family)), pool)))
        chosen.extend(family)
    return {"pool": pool, "items": chosen, "order": draw(st.permutations(list(range(len(chosen))))), "drop": draw(st.booleans())}


# ---------------------------------------------------------------------------
# the checks
# ---------------------------------------------------------------------------


def name_of(item):
    return " ".join(str(item[k]) for k in ("k", "kind", "op", "name", "class", "what", "f") if k in item)


def ask(what, *args):
    try:
        return server()(*args)
    except isolate.Hung as e:
        fail(f"{what}: {e}")


def well_conditioned(case):
    for item in case["items"]:
        if item["k"] == "unary" and P28._ill_conditioned(P28._make(case["pool"][item["x"]]), item["op"]):
            raise Reject()


def check_history(case, ctx):
    server()        # before anything is computed in this process
    well_conditioned(case)
    parent = os.path.dirname(ctx.tmp("x"))
    alone = [ask(name_of(i), "alone", case, i, parent, False)[0] for i in case["items"]]
    names = [name_of(case["items"][n]) for n in case["order"]]
    digests, final = ask(" - ".join(names), "sequence", case, parent)
    for position, n in enumerate(case["order"]):
        difference = differs(digests[position], alone[n])
        if difference:
            fail(f"{names[position]} after {names[0:position]}: {difference} (when nothing else has been computed before)")
        difference = differs(final[position], alone[n])
        if difference:
            fail(f"{names[position]} has changed after {names[position + 1:]}: {difference}")
    ctx.nontrivial_if(len({dumps(i) for i in case["items"]}) > 1 and any(a[2] for a in alone))
    for n in {case["items"][n]["k"] for n in case["order"]}:
        ctx.label(n)


def check_order(case, ctx):
    server()
    well_conditioned(case)
    parent = os.path.dirname(ctx.tmp("x"))
    names = [name_of(i) for i in case["items"]]
    results = []
    for order in (case["order"], case["order"][::-1]):
        digests, final = ask(" - ".join(names[n] for n in order), "sequence", {**case, "order": order}, parent)
        for n, d, f in zip(order, digests, final):
            difference = differs(f, d)
            if difference:
                fail(f"{names[n]} has been changed by a computation, that came later: {difference}")
        results.append({n: d for n, d in zip(order, digests)})
    for n, name in enumerate(names):
        difference = differs(results[1][n], results[0][n])
        if difference:
            fail(f"{name} after {[names[i] for i in case['order'][case['order'].index(n) + 1:][::-1]]}: {difference} (after {[names[i] for i in case['order'][:case['order'].index(n)]]})")
    ctx.nontrivial_if(len({dumps(i) for i in case["items"]}) > 1 and any(d[2] for d in results[0].values()))
    for k in {i["k"] for i in case["items"]}:
        ctx.label(k)


def check_interleave(case, ctx):
    server()
    well_conditioned(case)
    parent = os.path.dirname(ctx.tmp("x"))
    alone = [ask(name_of(i), "alone", case, i, parent, True) for i in case["items"]]
    schedules = [[((k + first) % 2, max(1, switch * alone[(k + first) % 2][1] // 1000)) for k, switch in enumerate(switches)] for first, switches in case["schedules"]]
    names = [name_of(i) for i in case["items"]]
    answers = ask(" | ".join(names), "interleaved", case, schedules, parent)
    for schedule, (results, interrupted) in zip(schedules, answers):
        for n in (0, 1):
            difference = differs(results[n], alone[n][0])
            if difference:
                fail(f"{names[n]} while another thread computes {names[1 - n]} (switching after the line numbers {schedule}): {difference}")
        ctx.nontrivial_if(interrupted)
    for i in case["items"]:
        ctx.label(i["k"])


def check_storm(case, ctx):
    server()
    well_conditioned(case)
    parent = os.path.dirname(ctx.tmp("x"))
    (a, lines), (b, _) = (ask(name_of(i), "alone", case, i, parent, True) for i in case["items"])
    stride = max(1, -(-lines // case["most"]))
    names = [name_of(i) for i in case["items"]]
    result, others = ask(" | ".join(names), "storm", case, stride, parent)
    difference = differs(result, a)
    if difference:
        fail(f"{names[0]}, while another thread computes {names[1]} after every {stride} executed lines: {difference}")
    for k, x in enumerate(others):
        difference = differs(x, b)
        if difference:
            fail(f"{names[1]}, while another thread is computing {names[0]} (after {(k + 1) * stride} of {lines} lines): {difference}")
    ctx.nontrivial_if(len(others) > 1)
    for i in case["items"]:
        ctx.label(i["k"])


AXES = {"Signal": ["time_samples"], "Spectrum": ["frequency_samples"], "Spectrogram": ["time_samples", "frequency_samples"]}
ARRAYS = {"Signal": ["level", "mean", "variance", "standard deviation", "skewness", "kurtosis"],
          "Spectrum": ["level", "magnitude", "phase", "real", "imaginary"], "Spectrogram": ["magnitude", "phase", "real", "imaginary"]}


@st.composite
def overwriting_cases(draw):
    """methods, that return arrays, which are modified by the caller"""
    kind = draw(st.sampled_from(["Signal", "Spectrum", "Spectrogram", "Filter"]))
    if kind == "Filter":
        return {"kind": kind, "x": draw(filters.filters(max_leaves=3)), "f": draw(FREQUENCY_LISTS), "methods": ["call", "call"]}
    methods = draw(st.lists(st.sampled_from(AXES[kind] * 2 + ARRAYS[kind]), min_size=1, max_size=4))
    return {"kind": kind, "x": draw(P28.operand(kind, draw(st.integers(1, 3)))), "methods": methods, "a": draw(P28.arguments)}


def check_overwriting(case, ctx):
    kind = case["kind"]

    def make():
        return filters.make(case["x"]) if kind == "Filter" else gen.make(case["x"])

    def request(x, method):
        with numpy.errstate(all="ignore"):
            if method == "call":
                frequencies = numpy.array(case["f"], dtype=float)
                results = list(x(frequencies))
                frequencies[:] = -7.0
                return results
            if method in AXES[kind]:
                return [getattr(x, method)()]
            return [P28.UNARY[kind][method](x, case["a"])]

    try:
        x = make()
    except ZeroDivisionError:
        raise Reject() from None
    for method in case["methods"]:
        try:
            results = request(x, method)
        except ZeroDivisionError:
            raise Reject() from None
        expected = [numpy.array(r) for r in results]
        for r in results:
            # the view on the data of a data set is allowed to be modifiable, although this must not be done
            if isinstance(r, numpy.ndarray) and r.size and r.flags.writeable and (kind == "Filter" or not numpy.shares_memory(r, x.channels())):
                r[...] = -77.0
                ctx.nontrivial_if(True)
        for what, y in (("the same object", x), ("an equal object", make())):
            again = [numpy.array(r) for r in request(y, method)]
            if len(again) != len(expected) or not all(numpy.array_equal(a, b, equal_nan=True) for a, b in zip(again, expected)):
                fail(f"{method} of {what} has changed, after the caller has modified the returned array")
    ctx.label(kind)


SUBS = [Sub("history", history_cases(), check_history, quick=800, rule="at least two different items and not all of them raise exceptions"),
        Sub("order", order_cases(), check_order, quick=6000, rule="at least two different items and not all of them raise exceptions"),
        Sub("interleave", interleave_cases(), check_interleave, quick=1200, rule="a computation has been interrupted by the other one"),
        Sub("storm", interleave_cases(storm=True), check_storm, quick=2400, rule="a computation has been interrupted repeatedly by the other one"),
        Sub("operations", operation_cases(), check_storm, quick=2800, rule="a computation has been interrupted repeatedly by the other one"),
        Sub("overwriting", overwriting_cases(), check_overwriting, quick=1500, rule="an array, that has been returned, is overwritten")]
ASSUMPTIONS = ["threads are switched between lines of the package and not within calls of compiled code", "the operands are not modified by the user"]
