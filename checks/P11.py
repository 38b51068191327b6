"""Levels and statistics equal their mathematical definitions"""

import math
from hypothesis import strategies as st
import numpy
import sumpf
from vlib import defaults, gen, large
from vlib.core import Reject, Sub, close, require
from vlib.gen import check_meta

STATISTICS = ("level", "mean", "standard_deviation", "variance", "skewness", "kurtosis")


def fmean(v):
    return math.fsum(v) / len(v)


def definition(name, v):
    """the textbook definition for a list of values"""
    m = fmean(v)
    if name == "level":
        return math.sqrt(fmean([x * x for x in v]))
    if name == "mean":
        return m
    variance = fmean([(x - m) ** 2 for x in v])
    if name == "variance":
        return variance
    if name == "standard_deviation":
        return math.sqrt(variance)
    if variance <= 1e-6 * fmean([x * x for x in v]):
        return None     # not defined for constant data
    if name == "skewness":
        return fmean([(x - m) ** 3 for x in v]) / variance ** 1.5
    return fmean([(x - m) ** 4 for x in v]) / variance ** 2 - 3.0


@st.composite
def statistics_case(draw):
    a = draw(gen.signals(channels=(1, 4), lengths=st.one_of(st.integers(1, 9), gen.sizes(1, 60, rare=12))))
    draw(gen.wide_integers(a["a"]))
    return {"a": a, "f": draw(st.sampled_from(STATISTICS)),
            "single": draw(st.sampled_from([False, True, None]))}


def check_statistics(case, ctx):
    s = gen.make(case["a"])
    x = numpy.array(gen.make_array(case["a"]["a"]))
    name = case["f"]
    snapshot = gen.Snapshot(s)
    ctx.nontrivial_if(x.shape[1] > 1)
    ctx.label(name, f"single={case['single']}")
    scale = float(numpy.abs(x).max())
    atol = {"level": scale, "mean": scale, "standard_deviation": scale, "variance": scale ** 2}.get(name, 1.0) * 1e-9
    if case["single"]:
        expected = definition(name, x.ravel().tolist())
        if expected is None:
            raise Reject()
        result = getattr(s, name)(single_value=True)
        close(result, expected, f"{name}(single_value=True)", rtol=1e-8, atol=atol)
    else:
        expected = [definition(name, c) for c in x.tolist()]
        result = getattr(s, name)() if case["single"] is None else getattr(s, name)(single_value=False)
        require(len(result) == len(x), f"{name}: number of values")
        defined = [i for i, e in enumerate(expected) if e is not None]
        if not defined:
            raise Reject()
        close(numpy.array(result)[defined], numpy.array([expected[i] for i in defined]), name, rtol=1e-8, atol=atol)
    snapshot.check(name)


@st.composite
def spectrum_case(draw):
    return {"a": draw(gen.spectrums(channels=(1, 4), lengths=st.one_of(st.integers(1, 6), gen.sizes(1, 50, rare=12)))), "single": draw(st.booleans()), "time": draw(st.booleans())}


def check_spectrum(case, ctx):
    x = numpy.array(gen.make_array(case["a"]["a"]), dtype=complex)
    bins = x.shape[1]
    ctx.nontrivial_if(bins > 2)
    if case["time"]:
        # compare to the level of a time signal
        signal = gen.make(dict(case["a"], r=float(case["a"]["r"]))).inverse_fourier_transform()
        spectrum = signal.fourier_transform()
        expected = [definition("level", c) for c in signal.channels().tolist()]
    else:
        spectrum = gen.make(case["a"])
        n = max(1, 2 * (bins - 1))
        expected = []
        for c in x:
            e = [abs(v) ** 2 for v in c]
            total = math.fsum(e) + math.fsum(e[1:-1])
            expected.append(math.sqrt(total) / n)
    snapshot = gen.Snapshot(spectrum)
    scale = float(numpy.abs(x).max(initial=0.0))
    if case["single"]:
        close(spectrum.level(single_value=True), math.sqrt(fmean([e * e for e in expected])), "level of a spectrum (single value)", rtol=1e-9, atol=1e-10 * scale)
    else:
        close(spectrum.level(), numpy.array(expected), "level of a spectrum", rtol=1e-9, atol=1e-10 * scale)
    snapshot.check("level of a spectrum")


@st.composite
def time_case(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 40)))
    a = draw(gen.signals(channels=(1, 3), lengths=st.just(n), sr=st.sampled_from([1.0, 2.0, 10.0, 48000.0, 44100.0, 8])))
    draw(gen.wide_integers(a["a"]))
    width = draw(st.one_of(st.integers(0, 2 * n + 3).map(float), st.floats(0.0, 2.2 * n + 2.0).map(lambda x: round(x, 2)),
                           st.sampled_from([float(n), n - 1.0, n + 0.5, 2.0 * n - 1.0, 2.0 * n - 1.5, 2.0 * n, 3.0, 2.5])))
    return {"a": a, "width": max(width, 0.0), "pad": draw(st.booleans())}


def check_time(case, ctx):
    s = gen.make(case["a"])
    x = numpy.array(gen.make_array(case["a"]["a"]), dtype=numpy.float64)
    sr = case["a"]["sr"]
    time = case["width"] / sr
    width = time * sr
    if abs(width - 1.0) < 1e-6 or abs(width - round(width)) < 1e-6 and width != round(width):
        time = round(width) / sr
        width = time * sr
        if width != round(width):
            ctx.label("inexact width")
    n = x.shape[1]
    snapshot = gen.Snapshot(s)
    result = s.level_vs_time(integration_time=time, pad=case["pad"])
    expected = numpy.empty(x.shape)
    if width <= 1.0:
        expected[:] = numpy.abs(x)
    else:
        # each sample covers the interval [i - 0.5, i + 0.5]
        for i in range(n):
            start, stop = i - width / 2.0, i + width / 2.0
            weights = numpy.array([max(0.0, min(stop, j + 0.5) - max(start, j - 0.5)) for j in range(n)])
            total = width if case["pad"] else weights.sum()
            expected[:, i] = numpy.sqrt((weights * x ** 2).sum(axis=1) / total)
    what = f"level_vs_time over {width} of {n} samples, pad={case['pad']}"
    ctx.nontrivial_if(width > 1.0 and n > 1)
    ctx.label(f"pad={case['pad']}", "integer" if width == round(width) else "fractional",
              "<=1" if width <= 1 else "< n" if width < n else "= n" if width == n else "< 2n-1" if width < 2 * n - 1 else ">= 2n-1")
    check_meta(result, what, cls=sumpf.Signal, sr=sr, offset=case["a"]["o"], labels=gen.full_labels(case["a"]), shape=x.shape)
    scale = float(numpy.abs(x).max(initial=0.0))
    close(result.channels(), expected, what, rtol=1e-7, atol=1e-7 * scale)
    snapshot.check(what)


@st.composite
def decay_case(draw):
    n = draw(st.integers(2, 60))
    a = draw(gen.signals(channels=(1, 3), lengths=st.just(n), kinds=("decay", "normal", "uniform"), explicit=0, scales=(1.0, 1e-3)))
    draw(gen.wide_integers(a["a"]))
    start = draw(st.integers(0, n - 2))
    stop = draw(st.integers(start + 2, n))
    form = draw(st.sampled_from(["int", "negative", "float"]))
    return {"a": a, "start": start, "stop": stop, "form": form}


def check_decay(case, ctx):
    s = gen.make(case["a"])
    x = numpy.array(gen.make_array(case["a"]["a"]), dtype=numpy.float64)
    n = x.shape[1]
    snapshot = gen.Snapshot(s)
    curve = sumpf.EnergyDecayCurve(s)
    expected = numpy.array([[math.fsum(v * v for v in c[i:]) for i in range(n)] for c in x.tolist()])
    check_meta(curve, "energy decay curve", cls=sumpf.EnergyDecayCurve, sr=case["a"]["sr"], offset=case["a"]["o"], labels=gen.full_labels(case["a"]), shape=x.shape)
    close(curve.channels(), expected, "energy decay curve", rtol=1e-9, atol=1e-12 * float(expected.max()))
    snapshot.check("energy decay curve")
    a, b = case["start"], case["stop"]
    start, stop = a, b
    if case["form"] == "negative":
        start, stop = a - n, (b - n if b < n else b)
    elif case["form"] == "float":
        start, stop = a / n, b / n
    if expected[:, a:b].min() < 1e-10 * expected.max():
        raise Reject()
    times = curve.reverberation_time(start, stop)
    model = curve.decay_model(start, stop)
    require(len(times) == len(x), "number of reverberation times")
    check_meta(model, "decay model", cls=sumpf.Signal, sr=case["a"]["sr"], offset=case["a"]["o"], labels=gen.full_labels(case["a"]), shape=x.shape)
    i = numpy.arange(a, b, dtype=float)
    for c, e in enumerate(expected):
        y = 10.0 * numpy.log10(e[a:b])
        slope = ((i - i.mean()) * (y - y.mean())).sum() / ((i - i.mean()) ** 2).sum()
        intercept = y.mean() - slope * i.mean()
        if abs(slope) < 1e-3:
            continue
        ctx.nontrivial_if(True)
        close(times[c], -60.0 / slope / case["a"]["sr"], "reverberation time", rtol=1e-6)
        close(model.channels()[c], 10.0 ** ((slope * numpy.arange(n) + intercept) / 10.0), "decay model", rtol=1e-6)


SUBS = [
    Sub("statistics", statistics_case(), check_statistics, quick=7000, rule="more than one sample"),
    Sub("spectrum", spectrum_case(), check_spectrum, quick=3000, rule="more than two bins"),
    Sub("level_vs_time", time_case(), check_time, quick=7000, rule="integration times of more than one sample"),
    Sub("decay", decay_case(), check_decay, quick=2000, rule="the segment's slope is not negligible"),
    defaults.sub("P11", 300),
    large.sub("P11"),
]
ASSUMPTIONS = ["skewness and (excess) kurtosis are only checked for data, that are not constant",
               "for fractional integration times, each sample stands for the interval of one sampling period around it",
               "a single-value level of a spectrum is the level of the concatenation of its channels"]
