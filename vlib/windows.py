"""Window functions and overlaps in the different forms, in which they can be passed to the transforms"""

from hypothesis import strategies as st
import numpy
import sumpf
from . import gen


def hann(n):
    return 0.5 - 0.5 * numpy.cos(2 * numpy.pi * numpy.arange(n) / n)


@st.composite
def window_values(draw, n, channels=1, scales=(1.0,)):
    """A recipe for a window with positive sum"""
    kind = draw(st.sampled_from(["hann", "rect", "random", "random", "random", "int", "sine"]))
    return {"n": n, "c": channels, "kind": kind, "seed": draw(gen.seed), "scale": draw(st.sampled_from(scales))}


def make_values(r):
    n, c = r["n"], r["c"]
    rng = numpy.random.Generator(numpy.random.PCG64(r["seed"]))
    result = []
    for i in range(c):
        if r["kind"] == "hann":
            w = hann(n) * (1.0 + i)
        elif r["kind"] == "rect":
            w = numpy.full(n, 1.0 + 0.5 * i)
        elif r["kind"] == "sine":
            w = numpy.sin(numpy.pi * (numpy.arange(n) + 0.5) / n) * (1.0 + i)
        elif r["kind"] == "int":
            w = rng.integers(1, 4, n)
        else:
            w = rng.uniform(0.2, 1.5, n)
        result.append(w if r.get("scale", 1.0) == 1.0 else w * r["scale"])
    return numpy.array(result)


@st.composite
def windows(draw, n, channels=1, scales=(1.0,)):
    """A window with ``n`` samples and a number of channels"""
    forms = ["signal", "array2"] if channels > 1 else ["int", "int", "list", "tuple", "array", "array2", "signal", "class"]
    form = draw(st.sampled_from(forms))
    if form in ("int", "class"):
        return {"form": form, "n": n, "name": draw(st.sampled_from(["HannWindow", "HammingWindow", "BlackmanWindow", "RectangularWindow"])), "sr": draw(st.booleans())}
    return {"form": form, "n": n, "v": draw(window_values(n, channels, scales)), "sr": draw(st.booleans())}


def make_window(case, sampling_rate):
    """:returns: a tuple (object to be passed, 2-D array of window values or None if it depends on the overlap)"""
    form = case["form"]
    if form == "int":
        return case["n"], None
    if form == "class":
        w = getattr(sumpf, case["name"])(length=case["n"], symmetric=False, sampling_rate=sampling_rate if case["sr"] else 2.0 * sampling_rate)
        return w, numpy.array(w.channels())
    v = make_values(case["v"])
    if form == "list":
        return v[0].tolist(), v
    if form == "tuple":
        return tuple(v[0].tolist()), v
    if form == "array":
        return v[0].copy(), v
    if form == "array2":
        return v.copy(), v
    return sumpf.Signal(channels=v.astype(float), sampling_rate=sampling_rate if case["sr"] else 3.0 * sampling_rate, labels=("W",) * len(v)), v


def window_model(case, values, overlap):
    """the window's values, when it is known how the overlap is given"""
    if values is not None:
        return numpy.array(values, dtype=float)
    if overlap == 0:
        return numpy.ones((1, case["n"]))
    return hann(case["n"])[numpy.newaxis, :]


@st.composite
def overlaps(draw, n, minimum=0):
    """A resolved overlap and the form, in which it is passed"""
    k = draw(st.one_of(st.integers(minimum, n - 1), st.sampled_from([max(n // 2, minimum), minimum, n - 1, max((3 * n) // 4, minimum)])))
    k = min(max(k, 0), n - 1)
    form = draw(st.sampled_from(["int", "int", "float", "negative", "negative float"]))
    if k == 0 or form == "int":
        return {"k": k, "v": draw(st.sampled_from([0, 0.0])) if k == 0 else k}
    if form == "float":
        return {"k": k, "v": k / n}
    if form == "negative":
        return {"k": k, "v": k - n}
    return {"k": k, "v": (k - n) / n}
