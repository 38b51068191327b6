"""Bands filters interpolate and extrapolate exactly as specified"""

import math
from hypothesis import strategies as st
import numpy
import sumpf
from vlib import filters, gen
from vlib.core import Sub, close, equal, fail, nearly, require

x_value = st.one_of(st.integers(1, 60).map(float), st.integers(1, 60), st.floats(-1.0, 4.0).map(lambda v: float(numpy.round(10.0 ** v, 3))), st.sampled_from([31.5, 62.5, 125.0, 250.0, 1000.0, 0.0]))


@st.composite
def channel(draw, positive=False):
    n = draw(st.one_of(st.integers(1, 5), st.integers(0, 9)))
    xs = draw(st.lists(x_value, min_size=n, max_size=n, unique_by=float))
    kind = "positive" if positive else draw(st.sampled_from(["positive", "positive", "real", "complex", "int", "mixed"]))
    y = {"positive": st.floats(-3.0, 3.0).map(lambda v: float(numpy.round(10.0 ** v, 4))), "real": filters.real_number, "complex": gen.complex_number, "int": st.integers(1, 9),
         "mixed": st.one_of(filters.real_number, gen.complex_number)}[kind]
    return {"xs": xs, "ys": draw(st.lists(y, min_size=n, max_size=n))}


@st.composite
def bands(draw, channels=(1, 3), positive=False):
    n = draw(st.integers(*channels))
    flags = st.sampled_from(filters.INTERPOLATIONS)
    case = {"c": draw(st.lists(channel(positive), min_size=n, max_size=n))}
    for k in ("i", "e"):
        case[k] = draw(st.one_of(flags, st.lists(flags, min_size=n, max_size=n), st.lists(flags, min_size=1, max_size=n)))
    case["l"] = draw(st.one_of(st.none(), st.lists(gen.label_text, min_size=1, max_size=n + 1)))
    case["single"] = n == 1 and draw(st.booleans())
    case["enum"] = draw(st.booleans())
    return case


def expand(flags, n):
    if isinstance(flags, int):
        return [flags] * n
    return (list(flags) + [flags[-1]] * n)[:n]


def make(case):
    n = len(case["c"])
    dicts = [dict(zip(c["xs"], [gen.dec(y) for y in c["ys"]])) for c in case["c"]]
    flags = []
    for k in ("i", "e"):
        v = case[k]
        if case["enum"]:
            v = sumpf.Bands.interpolations(v) if isinstance(v, int) else tuple(sumpf.Bands.interpolations(x) for x in v)
        flags.append(v)
    kwargs = {"bands": dicts[0] if case["single"] else dicts, "interpolations": flags[0], "extrapolations": flags[1]}
    if case["l"] is not None:
        kwargs["labels"] = case["l"] if n % 2 else tuple(case["l"])
    return sumpf.Bands(**kwargs), dicts


def models(case):
    n = len(case["c"])
    return [{"xs": [float(x) for x in c["xs"]], "ys": c["ys"], "i": i, "e": e} for c, i, e in zip(case["c"], expand(case["i"], n), expand(case["e"], n))]


@st.composite
def query(draw, case):
    """Frequencies, that are interesting for the given bands"""
    xs = sorted(float(x) for c in case["c"] for x in c["xs"]) or [1.0]
    result = []
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(["at", "between", "between", "near", "outside", "any"]))
        a, b = draw(st.sampled_from(xs)), draw(st.sampled_from(xs))
        if kind == "at":
            f = a
        elif kind == "between":
            f = a + (b - a) * draw(st.floats(0.0, 1.0))
        elif kind == "near":
            f = float(numpy.nextafter(a, draw(st.sampled_from([0.0, 1e9]))))
        elif kind == "outside":
            f = draw(st.sampled_from([xs[0] * 0.5, xs[-1] * 2.0, xs[-1] + 1.0, xs[0] * 0.9, 0.0]))
        else:
            f = draw(st.floats(-1.5, 4.5).map(lambda v: float(10.0 ** v)))
        result.append(max(f, 0.0))
    return result


@st.composite
def interpolation_case(draw):
    case = draw(bands())
    return {"b": case, "f": draw(query(case)), "order": draw(st.integers(0, 1000))}


def expected_value(m, f):
    ys = [gen.dec(y) for y in m["ys"]]
    return filters.interpolate_one(f, m["xs"], ys, m["i"], m["e"])


def check_interpolation(case, ctx):
    b, dicts = make(case["b"])
    originals = [dict(d) for d in dicts]
    ms = models(case["b"])
    n = len(ms)
    equal(len(b), n, "number of channels")
    given = case["b"]["l"]
    if given is None:
        given = ["Bands"]
    equal(b.labels(), tuple((list(given) + [given[0]] * n)[:n]), "labels")
    f = case["f"]
    response = b(numpy.array(f))
    text = repr(b)
    decided = 0
    for k, (m, c) in enumerate(zip(ms, response)):
        equal(numpy.shape(c), (len(f),), f"shape of the response of channel {k}")
        for i, x in enumerate(f):
            v, ok = expected_value(m, x)
            if ok:
                decided += 1
                actual = complex(c[i])
                if not (actual == v or abs(actual - v) <= 1e-9 * abs(v) + _slack(m, x)):
                    fail(f"channel {k} at {x} Hz is {actual} instead of {v}")
        # all supporting points
        for x, y in zip(m["xs"], m["ys"]):
            actual = complex(b(x)[k])
            require(actual == gen.dec(y), lambda: f"channel {k} at the supporting frequency {x} is {actual} instead of {gen.dec(y)}")
    # the order and kind of the queries does not matter
    rng = numpy.random.Generator(numpy.random.PCG64(case["order"]))
    order = rng.permutation(len(f))
    shuffled = b([f[i] for i in order])
    for k in range(n):
        for j, i in enumerate(order):
            _same(shuffled[k][j], response[k][i], ms[k], f[i], f"channel {k} at {f[i]} Hz, when the frequencies are passed in a different order")
    for i, x in enumerate(f):
        single = b(x)
        for k in range(n):
            _same(single[k], response[k][i], ms[k], x, f"channel {k} at {x} Hz, when only this frequency is passed")
    # the order of the supporting points does not matter
    permuted = dict(case["b"], c=[])
    for c in case["b"]["c"]:
        p = rng.permutation(len(c["xs"]))
        permuted["c"].append({"xs": [c["xs"][i] for i in p], "ys": [c["ys"][i] for i in p]})
    other, _ = make(permuted)
    for k, (a, c) in enumerate(zip(other(numpy.array(f)), response)):
        for i, x in enumerate(f):
            _same(a[i], c[i], ms[k], x, f"channel {k} at {x} Hz, when the supporting points are in a different order")
    # representation and isolation
    restored = eval(text, {"Bands": sumpf.Bands, "array": numpy.array, "nan": numpy.nan, "inf": numpy.inf})     # pylint: disable=eval-used
    require(restored == b, lambda: f"the evaluated representation {text} is different")
    equal(repr(b), text, "representation after the evaluation")
    equal(dicts, originals, "the dictionaries, that have been passed to the constructor")
    ctx.nontrivial_if(decided and any(len(m["xs"]) > 1 for m in ms))
    for m in ms:
        ctx.label(f"interpolation {m['i']}", f"extrapolation {m['e']}")
    ctx.label(f"{n} channels", "decided" if decided else "undecided")


def _slack(m, x):
    """rounding errors of steep slopes"""
    return 50 * filters.interpolation_error(float(x), [float(a) for a in m["xs"]], [gen.dec(y) for y in m["ys"]], m["i"], m["e"])


def _same(a, b, m, x, what):
    a, b = numpy.complex128(a), numpy.complex128(b)
    if a == b or (not numpy.isfinite(a) and not numpy.isfinite(b)):
        return
    if not abs(a - b) <= 1e-9 * abs(b) + _slack(m, x):
        v, ok = expected_value(m, x)
        if ok:
            fail(f"{what}: {a} instead of {b}")


# ---------------------------------------------------------------------------
# decibels
# ---------------------------------------------------------------------------

@st.composite
def db_case(draw):
    return {"b": draw(bands(positive=True)), "ref": draw(st.one_of(st.sampled_from([None, 1.0, 20e-6, 2]), st.floats(1e-6, 100.0).map(lambda v: float(numpy.round(v, 6)) or 1.0))),
            "factor": draw(st.sampled_from([None, 20.0, 10.0, 20, 10, 1.0, 8.685889638])), "dir": draw(st.sampled_from(["to", "from"]))}


def check_db(case, ctx):
    b, dicts = make(case["b"])
    originals = [dict(d) for d in dicts]
    kwargs = {}
    if case["ref"] is not None:
        kwargs["reference"] = case["ref"]
    if case["factor"] is not None:
        kwargs["factor"] = case["factor"]
    ref = case["ref"] if case["ref"] is not None else 1.0
    factor = case["factor"] if case["factor"] is not None else 20.0
    text = repr(b)
    if case["dir"] == "from":
        # decibel values, that do not overflow
        b = b.to_db(reference=1.0, factor=20.0)
        originals = [{x: 20.0 * math.log10(y) for x, y in d.items()} for d in originals]
    if case["dir"] == "to":
        r = b.to_db(**kwargs)
        expected = [{x: factor * math.log10(y / ref) for x, y in d.items()} for d in originals]
        back = r.from_db(**kwargs)
    else:
        r = b.from_db(**kwargs)
        expected = [{x: ref * 10.0 ** (y / factor) for x, y in d.items()} for d in originals]
        back = r.to_db(**kwargs)
    require(type(r) is sumpf.Bands, lambda: f"the result is a {type(r).__name__}")
    for o in (r, back):
        equal(o.labels(), b.labels(), "labels")
        equal(len(o), len(b), "number of channels")
    n = 0
    for k, (d, e) in enumerate(zip(originals, expected)):
        for x in d:
            n += 1
            nearly(complex(r(float(x))[k]), complex(e[x]), f"channel {k} at {x} Hz after the conversion", rtol=1e-11, atol=1e-11 * abs(factor) if case["dir"] == "to" else 0.0)
            nearly(complex(back(float(x))[k]), complex(d[x]), f"channel {k} at {x} Hz after the conversion and back", rtol=1e-9, atol=1e-9 * abs(factor) if case["dir"] == "from" else 0.0)
    # the interpolation of the converted filter
    ms = models(case["b"])
    for k, (m, e) in enumerate(zip(ms, expected)):
        xs = sorted(m["xs"])
        queries = [xs[0] * 0.7, xs[-1] * 1.6] + [0.4 * a + 0.6 * c for a, c in zip(xs, xs[1:])] if xs else [1.0]
        model = {"xs": [float(x) for x in e], "ys": list(e.values()), "i": m["i"], "e": m["e"]}
        for x in queries:
            v, ok = expected_value(model, x)
            if ok:
                actual = complex(r(x)[k])
                if not abs(actual - v) <= 1e-7 * abs(v) + 1e4 * _slack(model, x):
                    fail(f"channel {k} at {x} Hz after the conversion: {actual} instead of {v}")
    if case["dir"] == "to":
        equal(dicts, originals, "the dictionaries, that have been passed to the constructor")
        equal(repr(b), text, "the filter after the conversion")
    ctx.nontrivial_if(n)
    ctx.label(case["dir"])


# ---------------------------------------------------------------------------
# special values of the constructor
# ---------------------------------------------------------------------------

def check_default(case, ctx):
    m = {"xs": case["xs"], "ys": case["ys"], "i": filters.LOGARITHMIC, "e": filters.STAIRS_LIN}
    b = sumpf.Bands(dict(zip(case["xs"], case["ys"])))
    equal(b.labels(), ("Bands",), "default label")
    for f in case["f"]:
        v, ok = expected_value(m, f)
        if ok:
            nearly(complex(b(f)[0]), complex(v), f"default interpolation at {f} Hz", rtol=1e-9, atol=_slack(m, f))
    ctx.nontrivial_if(True)


default_case = st.integers(1, 5).flatmap(lambda n: st.fixed_dictionaries({
    "xs": st.lists(st.integers(1, 1000).map(float), min_size=n, max_size=n, unique=True), "ys": st.lists(st.floats(0.01, 100.0), min_size=n, max_size=n),
    "f": st.lists(st.floats(0.1, 2000.0), min_size=1, max_size=4)}))


SUBS = [
    Sub("interpolation", interpolation_case(), check_interpolation, quick=8000, rule="a channel with at least two supporting points and a specified value"),
    Sub("decibel", db_case(), check_db, quick=4000, rule="at least one supporting point"),
    Sub("default", default_case, check_default, quick=1000, rule="all cases"),
]
ASSUMPTIONS = ["frequencies, that are equally distant from two supporting points, are not decided for the stairs interpolations",
               "interpolations on logarithmic scales are only specified for positive frequencies and for positive or complex values"]
