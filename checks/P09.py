"""Convolution and correlation agree with their definitions in every mode"""

from hypothesis import strategies as st
import numpy
import sumpf
from vlib import defaults, gen, large
from vlib.core import Sub, close, equal, require
from vlib.gen import check_meta

MODES = ("FULL", "SAME", "VALID", "SPECTRUM", "SPECTRUM_PADDED")
CHANNELS = [(1, 1), (2, 2), (3, 3), (1, 3), (3, 1), (2, 1), (1, 2)]
LENGTHS = st.one_of(st.tuples(st.integers(1, 9), st.integers(1, 9)),
                    st.integers(1, 12).map(lambda n: (n, n)),
                    st.integers(2, 12).flatmap(lambda n: st.sampled_from([(n, n + 1), (n + 1, n), (n, 1), (1, n), (n, 2), (2, n)])),
                    st.tuples(st.integers(1, 40), st.integers(1, 40)),
                    st.tuples(gen.sizes(1, 20, rare=5), gen.sizes(1, 20, rare=5)))


@st.composite
def case_strategy(draw):
    c1, c2 = draw(st.sampled_from(CHANNELS))
    n1, n2 = draw(LENGTHS)
    kw = dict(scales=(1.0,), kinds=("normal", "uniform", "int", "sparse"))
    a = draw(gen.signals(channels=st.just(c1), lengths=st.just(n1), **kw))
    kind = draw(st.sampled_from(["signal", "signal", "signal", "vector", "matrix", "list", "alias"]))
    case = {"a": a, "kind": kind, "op": draw(st.sampled_from(["convolve", "correlate"])), "mode": draw(st.sampled_from(MODES + ("default",)))}
    draw(gen.wide_integers(a["a"]))
    if kind == "signal":
        case["b"] = draw(gen.signals(channels=st.just(c2), lengths=st.just(n2), sr=st.just(a["sr"]), **kw))
    elif kind == "matrix":
        case["b"] = {"a": draw(gen.arrays((c2, n2), **kw))}
    elif kind in ("vector", "list"):
        case["b"] = {"a": draw(gen.arrays((n2,), **kw))}
    if "b" in case:
        draw(gen.wide_integers(case["b"]["a"]))
    return case


def full_convolution(x, y):
    result = numpy.zeros(len(x) + len(y) - 1)
    for i, v in enumerate(x):
        result[i:i + len(y)] += v * y
    return result


def full_correlation(x, y):
    """the first value belongs to the lag 1 - len(x)"""
    return full_convolution(x[::-1], y)


def circular(full, first, n, lag0):
    """adds up the values, whose index differs by a multiple of n. :returns: a function of the lag"""
    result = numpy.zeros(n)
    for i, v in enumerate(full):
        result[(lag0 + i) % n] += v
    return [result[(first + i) % n] for i in range(n)]


def model(x, y, op, mode):
    """:returns: a tuple (values, index of the first value relative to the offsets)"""
    n, m = len(x), len(y)
    small, large = min(n, m), max(n, m)
    if op == "convolve":
        full, lag0 = full_convolution(x, y), 0
    else:
        full, lag0 = full_correlation(x, y), 1 - n
    if mode in ("FULL", "SPECTRUM_PADDED"):
        return full, lag0
    if mode == "SAME":
        start = (small - 1) // 2
        return full[start:start + large], lag0 + start
    if mode == "VALID":
        return full[small - 1:large], lag0 + small - 1
    even = large + large % 2
    return numpy.array(circular(full, lag0, even, lag0)[:large]), lag0


def check(case, ctx):
    a = gen.make(case["a"])
    x = numpy.array(gen.make_array(case["a"]["a"]), dtype=numpy.float64)
    o = case["a"]["o"]
    kind = case["kind"]
    if kind == "alias":
        b, y, o2 = a, x, o
    else:
        y = numpy.array(gen.make_array(case["b"]["a"]), dtype=numpy.float64)
        o2 = 0
        if kind == "signal":
            b = gen.make(case["b"])
            o2 = case["b"]["o"]
        elif kind == "list":
            b = y.tolist()
        else:
            b = gen.make_array(case["b"]["a"])
        y = numpy.atleast_2d(y)
    op, mode = case["op"], case["mode"]
    snapshot = gen.Snapshot(a, *([b] if kind != "list" else []))
    if mode == "default":
        result = getattr(a, op)(b)
        mode = "SPECTRUM_PADDED"
    else:
        result = getattr(a, op)(b, getattr(sumpf.Signal.convolution_modes, mode))
    channels = max(len(x), len(y))
    pairs = [model(x[i if len(x) > 1 else 0], y[i if len(y) > 1 else 0], op, mode) for i in range(channels)]
    expected = numpy.array([p[0] for p in pairs])
    base = o + o2 if op == "convolve" else o2 - o
    what = f"{op} with a {kind} in mode {mode}"
    ctx.nontrivial_if(x.shape[1] > 1 and y.shape[1] > 1)
    ctx.label(f"{op} {mode}", kind, f"{min(len(x), 2)}x{min(len(y), 2)} channels",
              "longer" if x.shape[1] > y.shape[1] else "shorter" if x.shape[1] < y.shape[1] else "same length")
    check_meta(result, what, cls=sumpf.Signal, sr=case["a"]["sr"], offset=base + pairs[0][1], shape=expected.shape)
    if kind in ("signal", "alias"):
        equal(tuple(result.labels()), ({"convolve": "Convolution", "correlate": "Correlation"}[op],) * channels, f"{what}: labels")
    elif channels == len(x):
        equal(tuple(result.labels()), gen.full_labels(case["a"]), f"{what}: labels")
    scale = float(numpy.abs(x).max(initial=0)) * float(numpy.abs(y).max(initial=0)) * min(x.shape[1], y.shape[1])
    close(result.channels(), expected, what, rtol=1e-9, atol=1e-11 * scale + 1e-300)
    snapshot.check(what)


@st.composite
def scalar_case(draw):
    return {"a": draw(gen.signals(channels=(1, 3), lengths=(1, 12))), "v": draw(st.one_of(st.integers(-5, 5), gen.small_float)), "np": draw(st.booleans()),
            "op": draw(st.sampled_from(["convolve", "correlate"])), "mode": draw(st.sampled_from(MODES))}


def check_scalar(case, ctx):
    a = gen.make(case["a"])
    v = numpy.float64(case["v"]) if case["np"] else case["v"]
    result = getattr(a, case["op"])(v, getattr(sumpf.Signal.convolution_modes, case["mode"]))
    what = f"{case['op']} with a number"
    ctx.nontrivial_if(case["v"] not in (0, 1))
    check_meta(result, what, cls=sumpf.Signal, sr=case["a"]["sr"], labels=gen.full_labels(case["a"]), shape=a.shape())
    if case["op"] == "convolve":
        equal(result.offset(), case["a"]["o"], f"{what}: offset")
    close(result.channels(), numpy.array(gen.make_array(case["a"]["a"])) * case["v"], what)


@st.composite
def relation_case(draw):
    kw = dict(scales=(1.0,), kinds=("normal", "uniform"), sr=st.just(48000.0))
    c = draw(st.integers(1, 2))
    return {"a": draw(gen.signals(channels=st.just(c), lengths=(1, 20), **kw)), "b": draw(gen.signals(channels=st.just(1), lengths=(1, 20), **kw)),
            "c": draw(gen.signals(channels=st.just(c), lengths=(1, 8), **kw)), "mode": draw(st.sampled_from(["FULL", "SPECTRUM_PADDED"])),
            "k": draw(st.integers(1, 5)), "end": draw(st.booleans())}


def same_time_function(a, b, what):
    difference = a - b
    scale = max(float(numpy.abs(a.channels()).max(initial=0)), float(numpy.abs(b.channels()).max(initial=0)))
    require(len(a) == len(b), f"{what}: number of channels")
    close(difference.channels(), numpy.zeros(difference.shape()), what, atol=1e-10 * scale + 1e-12)


def check_relations(case, ctx):
    a, b, c = gen.make(case["a"]), gen.make(case["b"]), gen.make(case["c"])
    mode = getattr(sumpf.Signal.convolution_modes, case["mode"])
    ctx.nontrivial_if(a.length() > 1 and b.length() > 1)
    same_time_function(a.convolve(b, mode), b.convolve(a, mode), "commutativity of the convolution")
    same_time_function(a.convolve(b, mode).convolve(c, mode), a.convolve(c, mode).convolve(b, mode), "associativity of the convolution")
    same_time_function(a.correlate(b, mode), mirrored(b.correlate(a, mode)), "correlation with swapped operands")
    # a delay in the samples is the same as a delay in the offset
    k = case["k"]
    delayed = a.shift(k, sumpf.Signal.shift_modes.PAD)
    same_time_function(delayed.convolve(b, mode), a.shift(k).convolve(b, mode), "convolution with a delayed signal")
    same_time_function(delayed.correlate(b, mode), a.shift(k).correlate(b, mode), "correlation of a delayed signal")
    same_time_function(b.correlate(delayed, mode), b.correlate(a.shift(k), mode), "correlation with a delayed signal")
    longer = a.pad(a.length() + k)
    same_time_function(longer.convolve(b, mode), a.convolve(b, mode), "convolution with a padded signal")
    same_time_function(longer.correlate(b, mode), a.correlate(b, mode), "correlation of a padded signal")
    impulse = sumpf.Signal(channels=numpy.array([[1.0]]), sampling_rate=48000.0, offset=k)
    same_time_function(a.convolve(impulse, mode), a.shift(k), "convolution with an impulse")
    same_time_function(impulse.correlate(a, mode), a.shift(-k), "correlation with an impulse")


def mirrored(s):
    """mirrors a signal around the point zero in time"""
    return sumpf.Signal(channels=s.channels()[:, ::-1].copy(), sampling_rate=s.sampling_rate(), offset=-(s.offset() + s.length() - 1))


SUBS = [
    Sub("definition", case_strategy(), check, quick=14000, rule="both operands have more than one sample"),
    Sub("scalar", scalar_case(), check_scalar, quick=600, rule="factors other than 0 and 1"),
    Sub("relation", relation_case(), check_relations, quick=1500, rule="both operands have more than one sample"),
    defaults.sub("P09", 200),
    large.sub("P09"),
]
ASSUMPTIONS = ["non-empty operands; one of them has a single channel or both have the same number of channels; matrices are numpy arrays"]
