"""Saved filters load back with the same response"""

import os
import numpy
import sumpf
from hypothesis import strategies as st
from checks import P17
from vlib import files, filters, gen
from vlib.core import Reject, Sub, close, equal, require, same_array

FILTER = ("TEXT_JSON", "TEXT_REPR", "PYTHON_PICKLE")
TEXT_TABLES = ("TEXT_TAB_I", "TEXT_TAB_J", "TEXT_PIPE_I", "TEXT_PIPE_J", "TEXT_GNUPLOT")
BANDS = FILTER + TEXT_TABLES + ("TEXT_CSV", "NUMPY_NPY", "NUMPY_NPZ")
FILTER_EXTENSIONS = {"TEXT_JSON": [".json", ".js"], "TEXT_REPR": [".txt"], "PYTHON_PICKLE": [".pickle"]}
BANDS_EXTENSIONS = {**FILTER_EXTENSIONS, "TEXT_CSV": [".csv", ".dat"], "NUMPY_NPY": [".npy"], "NUMPY_NPZ": [".npz"],
                    **{f: [".txt", ".dat", ".asc"] + ([".tab"] if "PIPE" not in f else []) for f in TEXT_TABLES}}
FILTER_AUTO = {".txt": "TEXT_REPR", ".json": "TEXT_JSON", ".js": "TEXT_JSON", ".pickle": "PYTHON_PICKLE"}
BANDS_AUTO = {".txt": "TEXT_TAB_I", ".dat": "TEXT_TAB_I", ".asc": "TEXT_TAB_I", ".tab": "TEXT_TAB_I", ".csv": "TEXT_CSV", ".json": "TEXT_JSON", ".js": "TEXT_JSON",
              ".npy": "NUMPY_NPY", ".npz": "NUMPY_NPZ", ".pickle": "PYTHON_PICKLE"}
FREQUENCIES = numpy.array([0.0, 0.5, 1.0, 3.0, 7.77, 20.0, 50.0, 99.9, 123.0, 200.0, 333.0, 1000.0, 12345.6])


def save(f, path, fmt, as_path=False):
    before = repr(f), f.labels()
    files.save(f, path, fmt, as_path)
    equal((repr(f), f.labels()), before, "the filter has been modified by saving it")


# ---------------------------------------------------------------------------
# arbitrary combinations of terms
# ---------------------------------------------------------------------------


@st.composite
def filter_cases(draw):
    fmt = draw(st.sampled_from(FILTER))
    return {"f": fmt, "filter": draw(filters.filters()), "name": draw(files.names), "ext": draw(st.sampled_from(FILTER_EXTENSIONS[fmt])), "path": draw(st.booleans())}


def frequencies_of(case):
    return FREQUENCIES[1:] if any(filters.has_transform(c) for c in case["c"]) else FREQUENCIES


def make_filter(case):
    """Creates the filter and a model of its response"""
    evaluation = filters.Evaluation(frequencies_of(case))
    models = [evaluation(tree) for tree in case["c"]]
    try:
        f = filters.make(case)
    except ZeroDivisionError as e:
        if evaluation.zero_division:
            raise Reject() from e
        raise
    if "nan" in repr(f) or (evaluation.zero_division and "inf" in repr(f)):
        raise Reject()
    return f, models


def compare_filter(loaded, f, models, case, fmt, what):
    equal(tuple(loaded.labels()), filters.full_labels(case), f"{what}: labels")
    equal(len(loaded), len(case["c"]), f"{what}: number of channels")
    response = loaded(frequencies_of(case))
    decided = sum(filters.compare(actual, model, f"{what}: response of channel {k}") for k, (actual, model) in enumerate(zip(response, models)))
    if fmt == "PYTHON_PICKLE":      # creating a filter from its repr string or its terms might simplify these
        require(loaded == f, f"{what}: the loaded filter does not equal the saved one")
        with numpy.errstate(all="ignore"):
            for a, b in zip(loaded(FREQUENCIES), f(FREQUENCIES)):
                same_array(numpy.broadcast_to(a, FREQUENCIES.shape), numpy.broadcast_to(b, FREQUENCIES.shape), f"{what}: response of the loaded and the saved filter")
    return decided


def check_filter(case, ctx):
    fmt = case["f"]
    f, models = make_filter(case["filter"])
    filename = case["name"] + case["ext"]
    path = ctx.tmp(filename)
    save(f, path, getattr(sumpf.Filter.file_formats, fmt), case["path"])
    loaded = files.load(sumpf.Filter, path, case["path"])
    decided = compare_filter(loaded, f, models, case["filter"], fmt, fmt)
    kinds = set()
    for c in case["filter"]["c"]:
        kinds |= set(filters.kinds(c))
    ctx.label(fmt, *sorted(kinds))
    ctx.nontrivial_if(decided and len(kinds) > 1)
    save(loaded, path, getattr(sumpf.Filter.file_formats, fmt))
    compare_filter(files.load(sumpf.Filter, path), loaded, models, case["filter"], fmt, f"{fmt} after saving what has been loaded")


# ---------------------------------------------------------------------------
# the filters, that are implemented as sub-classes
# ---------------------------------------------------------------------------

PREDEFINED = {
    "ButterworthFilter": lambda p: sumpf.ButterworthFilter(cutoff_frequency=p["f"], order=p["n"], highpass=p["b"]),
    "BesselFilter": lambda p: sumpf.BesselFilter(cutoff_frequency=p["f"], order=p["n"], highpass=p["b"]),
    "Chebyshev1Filter": lambda p: sumpf.Chebyshev1Filter(ripple=p["x"], cutoff_frequency=p["f"], order=p["n"], highpass=p["b"]),
    "Chebyshev2Filter": lambda p: sumpf.Chebyshev2Filter(ripple=10.0 * p["x"], cutoff_frequency=p["f"], order=p["n"], highpass=p["b"]),
    "DelayFilter": lambda p: sumpf.DelayFilter(delay=p["x"] * 1e-3),
    "DerivativeFilter": lambda p: sumpf.DerivativeFilter(),
    "AWeighting": lambda p: sumpf.AWeighting(),
    "BWeighting": lambda p: sumpf.BWeighting(),
    "CWeighting": lambda p: sumpf.CWeighting(),
    "DWeighting": lambda p: sumpf.DWeighting(),
    "UWeighting": lambda p: sumpf.UWeighting(),
}
COMBINE = {"none": lambda a, b: a, "sum": lambda a, b: a + b, "difference": lambda a, b: a - b, "product": lambda a, b: a * b, "quotient": lambda a, b: a / (b + 3.5),
           "inverse": lambda a, b: ~a, "absolute": lambda a, b: abs(a), "negative": lambda a, b: -a, "scaled": lambda a, b: 1.5 * a}


@st.composite
def predefined_cases(draw):
    def one():
        return {"cls": draw(st.sampled_from(sorted(PREDEFINED))), "f": draw(st.sampled_from([1000.0, 100, 44.1, 5000.0])), "n": draw(st.integers(1, 6)),
                "b": draw(st.booleans()), "x": draw(st.sampled_from([0.5, 1.0, 3.0, 2]))}
    fmt = draw(st.sampled_from(FILTER))
    return {"f": fmt, "a": one(), "b": one(), "op": draw(st.sampled_from(sorted(COMBINE))), "ext": draw(st.sampled_from(FILTER_EXTENSIONS[fmt]))}


def check_predefined(case, ctx):
    fmt = case["f"]
    a, b = (PREDEFINED[c["cls"]](c) for c in (case["a"], case["b"]))
    f = COMBINE[case["op"]](a, b)
    filename = "file" + case["ext"]
    path = ctx.tmp(filename)
    save(f, path, getattr(sumpf.Filter.file_formats, fmt))
    loaded = files.load(sumpf.Filter, path)
    ctx.label(fmt, case["op"], case["a"]["cls"])
    ctx.nontrivial_if(True)
    equal(tuple(loaded.labels()), tuple(f.labels()), f"{fmt}: labels")
    if fmt == "PYTHON_PICKLE":
        require(type(loaded) is type(f), f"{fmt}: the loaded filter is a {type(loaded).__name__} instead of a {type(f).__name__}")
        require(loaded == f, f"{fmt}: the loaded filter does not equal the saved one")
    magnitude = max(float(numpy.abs(numpy.array(x(FREQUENCIES))).max()) for x in (a, b))
    if case["op"] in ("sum", "difference"):
        close(numpy.array(loaded(FREQUENCIES)), numpy.array(f(FREQUENCIES)), f"{fmt}: response", rtol=1e-10, atol=1e-13 * magnitude)
    else:
        close(numpy.array(loaded(FREQUENCIES)), numpy.array(f(FREQUENCIES)), f"{fmt}: response", rtol=1e-10)


# ---------------------------------------------------------------------------
# bands filters
# ---------------------------------------------------------------------------


@st.composite
def bands_cases(draw):
    fmt = draw(st.sampled_from(BANDS))
    return {"f": fmt, "bands": draw(P17.bands()), "common": draw(st.booleans()), "name": draw(files.names), "ext": draw(st.sampled_from(BANDS_EXTENSIONS[fmt])), "path": draw(st.booleans())}


def make_bands(case):
    """If the common-flag is set, some channels get supporting points at the same frequencies as the first one"""
    c = case["bands"]
    if case["common"]:
        first = c["c"][0]
        channels = [first]
        for i, channel in enumerate(c["c"][1:]):
            ys = channel["ys"] or [2.0]
            xs = first["xs"][i:]
            channels.append({"xs": xs, "ys": [ys[k % len(ys)] for k in range(len(xs))]})
        c = {**c, "c": channels}
    return P17.make(c)


def table_content(fmt, dicts, labels, interpolations, extrapolations, filename):
    """what a bands filter with the given supporting points looks like after loading it from a file"""
    n = len(dicts)
    kwargs = {}
    if fmt in TEXT_TABLES or fmt == "NUMPY_NPY":
        labels = tuple(f"{filename} {i}" for i in range(1, n + 1))
    if fmt == "NUMPY_NPY":
        kwargs = {"interpolations": sumpf.Bands.interpolations.LINEAR, "extrapolations": sumpf.Bands.interpolations.STAIRS_LIN}
    elif fmt == "NUMPY_NPZ":
        kwargs = {"interpolations": interpolations, "extrapolations": extrapolations}
    return sumpf.Bands(bands=dicts, labels=labels, **kwargs)


def compare_bands(loaded, bands, dicts, case, fmt, filename, what):
    n = len(dicts)
    labels = gen.full_labels({"a": {"shape": [n]}, "l": case["bands"]["l"] if case["bands"]["l"] is not None else ["Bands"] * n})
    if fmt in FILTER:
        equal(tuple(loaded.labels()), tuple(bands.labels()), f"{what}: labels")
        require(loaded == bands, f"{what}: the loaded filter does not equal the saved one")
        frequencies = numpy.array(sorted({float(x) for d in dicts for x in d} | {0.5, 2.0, 17.3, 100.0, 5000.0}))
        with numpy.errstate(all="ignore"):
            close(numpy.array(loaded(frequencies)), numpy.array(bands(frequencies)), f"{what}: response", rtol=1e-12)
        if fmt != "TEXT_JSON":
            require(isinstance(loaded, sumpf.Bands), f"{what}: the loaded filter is not a Bands filter")
        return
    require(isinstance(loaded, sumpf.Bands), f"{what}: the loaded filter is not a Bands filter")
    m = case["bands"]
    expected = table_content(fmt, dicts, bands.labels(), P17.expand(m["i"], n), P17.expand(m["e"], n), filename)
    equal(tuple(loaded.labels()), tuple(expected.labels()), f"{what}: labels")
    equal(len(loaded), n, f"{what}: number of channels")
    for i, d in enumerate(dicts):
        for x, y in d.items():
            equal(complex(loaded(float(x))[i]), complex(y), f"{what}: value of channel {i} at {x!r} Hz")
    require(loaded == expected, f"{what}: the loaded bands filter {loaded!r} does not equal the expected one {expected!r}")
    del labels


def check_bands(case, ctx):
    fmt = case["f"]
    bands, dicts = make_bands(case)
    filename = case["name"] + case["ext"]
    path = ctx.tmp(filename)
    save(bands, path, getattr(sumpf.Bands.file_formats, fmt), case["path"])
    loaded = files.load(sumpf.Filter if case["path"] else sumpf.Bands, path, case["path"]) if fmt != "TEXT_JSON" else files.load(sumpf.Filter, path, case["path"])
    ctx.label(fmt, "missing values" if len({tuple(sorted(map(float, d))) for d in dicts}) > 1 else "common frequencies")
    ctx.nontrivial_if(any(dicts))
    compare_bands(loaded, bands, dicts, case, fmt, filename, fmt)


# ---------------------------------------------------------------------------
# a history of saving files
# ---------------------------------------------------------------------------


@st.composite
def histories(draw):
    steps = []
    for _ in range(draw(st.integers(2, 5))):
        automatic = draw(st.booleans())
        if draw(st.integers(0, 2)):
            case = draw(bands_cases())
            if automatic:
                case["ext"] = draw(st.sampled_from(sorted(BANDS_AUTO)))
                case["f"] = BANDS_AUTO[case["ext"]]
        else:
            case = draw(filter_cases())
            if automatic:
                case["f"] = FILTER_AUTO[case["ext"]]
        steps.append({"auto": automatic, "case": case, "file": draw(st.sampled_from(["a", "b"])) + case["ext"]})
    return {"steps": steps}


def check_history(case, ctx):
    current = {}
    for i, step in enumerate(case["steps"]):
        c = step["case"]
        path = ctx.tmp(step["file"])
        what = f"step {i}: {'AUTO' if step['auto'] else c['f']} {step['file']!r}"
        if step["file"] in current:
            ctx.label("overwritten")
            ctx.nontrivial_if(True)
        if "bands" in c:
            f, dicts = make_bands(c)
        else:
            f, dicts = make_filter(c["filter"])
        save(f, path, (f.file_formats.AUTO if i % 2 else None) if step["auto"] else getattr(f.file_formats, c["f"]))
        current[step["file"]] = (f, dicts, c, what)
        ctx.label("auto" if step["auto"] else "explicit")
        for name, (f_, d, c_, description) in current.items():
            loaded = files.load(sumpf.Filter, ctx.tmp(name))
            if "filter" in c_:
                compare_filter(loaded, f_, d, c_["filter"], c_["f"], description)
            else:
                compare_bands(loaded, f_, d, c_, c_["f"], name, description)
    equal(sorted(os.listdir(os.path.dirname(ctx.tmp("x")))), sorted(current), "the files, that have been created")


# ---------------------------------------------------------------------------
# tables in other notations
# ---------------------------------------------------------------------------


@st.composite
def tables(draw):
    n = draw(st.integers(1, 3))
    rows = []
    for x in draw(st.lists(st.one_of(st.integers(0, 60), st.floats(0.5, 2e4).map(lambda v: float(numpy.round(v, 3)))), min_size=1, max_size=6, unique_by=float)):
        rows.append({"x": x, "ys": draw(st.lists(st.one_of(st.none(), filters.real_number, gen.complex_number), min_size=n, max_size=n)),
                     "style": draw(st.sampled_from(["i", "j", "I", "J", "(j)", "(i)", "gnuplot", "gnuplot "])), "short": draw(st.booleans()),
                     "comment": draw(st.sampled_from(["", "", " # 1.0 2.0", "; comment"]))})
    return {"n": n, "rows": rows, "delimiter": draw(st.sampled_from(["\t", " | ", " ", "  ", ", ", "|"])), "ext": draw(st.sampled_from([".txt", ".dat", ".asc", ".tab", ".x"])),
            "exp": draw(st.booleans()), "head": draw(st.sampled_from(["", "# comment\n", "\n; 1.0 2.0\n", "   \n"]))}


def number(y, style, exponential):
    y = gen.dec(y) if y is not None else None
    text = (lambda v: f"{v:.17e}") if exponential else (lambda v: repr(float(v)))
    if y is None:
        return "{nan, NaN}" if style.startswith("gnuplot") else "NaN"
    if not isinstance(y, complex):
        return text(y)
    if style.startswith("gnuplot"):
        return "{" + text(y.real) + ("," if style == "gnuplot" else " , ") + text(y.imag) + "}"
    sign = "-" if y.imag < 0 else "+"
    if style.startswith("("):
        return f"({text(y.real)} {sign} {text(abs(y.imag))}{style[1]})"
    return f"{text(y.real)}{sign}{text(abs(y.imag))}{style}"


def check_table(case, ctx):
    """Text files, which use one of the documented notations for complex numbers"""
    filename = "table" + case["ext"]
    path = ctx.tmp(filename)
    lines = []
    expected = [{} for _ in range(case["n"])]
    for r in case["rows"]:
        ys = list(r["ys"])
        if r["short"] and lines:    # missing values at the end of the line can be omitted
            while ys and ys[-1] is None:
                ys.pop()
        for d, y in zip(expected, ys):
            if y is not None:
                d[float(r["x"])] = gen.dec(y)
        lines.append(case["delimiter"].join([repr(r["x"])] + [number(y, r["style"], case["exp"]) for y in ys]) + r["comment"])
    with open(path, "w") as f:
        f.write(case["head"] + "\n".join(lines) + "\n")
    if not any(expected):
        return
    ctx.nontrivial_if(sum(map(len, expected)) > 1)
    ctx.label(case["delimiter"])
    loaded = files.load(sumpf.Filter, path)
    equal(tuple(loaded.labels()), tuple(f"{filename} {i}" for i in range(1, case["n"] + 1)), "labels of a table")
    model = sumpf.Bands(bands=expected, labels=loaded.labels())
    for i, d in enumerate(expected):
        for x, y in d.items():
            equal(complex(loaded(x)[i]), complex(y), f"value of channel {i} at {x!r} Hz")
    require(loaded == model, f"the loaded bands filter {loaded!r} does not equal the expected one {model!r}")


SUBS = [Sub("filters", filter_cases(), check_filter, 1600, rule="filters with more than one kind of terms, whose response is well-conditioned at some frequency"),
        Sub("predefined", predefined_cases(), check_predefined, 800, rule="all cases"),
        Sub("bands", bands_cases(), check_bands, 2000, rule="a bands filter with supporting points"),
        Sub("history", histories(), check_history, 400, rule="a file is overwritten"),
        Sub("table", tables(), check_table, 1200, rule="a table with at least two values")]
ASSUMPTIONS = ["the supporting points of a bands filter are finite and have non-negative frequencies"]
