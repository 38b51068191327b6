"""Inverting a signal yields its convolutional inverse"""

from hypothesis import strategies as st
import numpy
import sumpf
from vlib import gen, large
from vlib.core import Reject, Sub, close, equal
from vlib.gen import check_meta


@st.composite
def invertible(draw):
    c = draw(st.integers(1, 4))
    n = draw(st.one_of(st.integers(1, 10), st.integers(1, 60), st.sampled_from([64, 99, 100, 127, 128, 1000, 1025])))
    kind = draw(st.sampled_from(["impulse", "impulse", "noise", "explicit", "spectrum", "spectrum"]))
    case = {"c": c, "n": n, "kind": kind, "seed": draw(gen.seed), "scale": draw(st.sampled_from([1.0, 1e-3, 50.0, 1e-9, 1e9, 1e-18, 1e18, 1e-90, 1e90])), "pos": draw(st.integers(0, n - 1)),
            "sr": draw(gen.sampling_rate), "o": draw(gen.offsets), "l": draw(gen.labels(c)), "layout": draw(st.sampled_from(gen.LAYOUTS))}
    if kind == "explicit":
        case["v"] = draw(st.lists(gen.small_float, min_size=min(n, 6), max_size=min(n, 6)))
    return case


def data_of(case):
    rng = numpy.random.Generator(numpy.random.PCG64(case["seed"]))
    c, n = case["c"], case["n"]
    if case["kind"] == "impulse":
        x = rng.uniform(-1.0, 1.0, (c, n)) * 0.8 / n
        x[:, case["pos"]] += 1.0
    elif case["kind"] == "spectrum":    # some frequencies are attenuated by up to 100 dB
        bins = n // 2 + 1
        y = 10.0 ** (rng.uniform(-5.0, 0.0, (c, bins)) * (rng.uniform(size=(c, bins)) < 0.4)) * numpy.exp(2j * numpy.pi * rng.uniform(size=(c, bins)))
        y[:, 0] = y[:, 0].real
        x = numpy.fft.irfft(y, n=n)
    elif case["kind"] == "noise":
        x = rng.normal(size=(c, n))
    else:
        x = rng.normal(size=(c, n)) * 0.1 / n
        x[:, :len(case["v"])] += case["v"]
    return x * case["scale"]


def build(case):
    x = data_of(case)
    a = {"shape": list(x.shape), "re": x.ravel().tolist()}
    if case["layout"] != "C":
        a["layout"] = case["layout"]
    return gen.make({"t": "Signal", "a": a, "sr": case["sr"], "o": case["o"], "l": case["l"]}), x


def circular(x, y):
    n = len(x)
    result = numpy.zeros(n)
    for i in range(n):
        result += x[i] * numpy.roll(y, i)
    return result


def check_inverse(case, ctx):
    s, x = build(case)
    n = x.shape[1]
    padded = x if n % 2 == 0 else numpy.concatenate([x, numpy.zeros(x.shape)], axis=1)
    magnitude = numpy.abs(numpy.fft.rfft(padded))
    if magnitude.min() < 1e-6 * magnitude.max() or magnitude.max() == 0:
        raise Reject()
    # the channels are independent
    condition = float((magnitude.max(axis=1) / magnitude.min(axis=1)).max())
    snapshot = gen.Snapshot(s)
    inverse = ~s
    ctx.nontrivial_if(n > 2)
    ctx.label("odd" if n % 2 else "even", "offset" if case["o"] else "no offset")
    labels = gen.full_labels({"a": {"shape": [case["c"]]}, "l": case["l"]})
    check_meta(inverse, "inverse", cls=sumpf.Signal, sr=case["sr"], offset=-case["o"], labels=labels, shape=x.shape)
    delta = numpy.zeros(x.shape)
    delta[:, 0] = 1.0
    result = numpy.array([circular(u, v) for u, v in zip(x, inverse.channels())])
    close(result, delta, "circular convolution of a signal with its inverse", atol=1e-11 * condition)
    if n % 2 == 0:
        convolved = s.convolve(inverse, sumpf.Signal.convolution_modes.SPECTRUM)
        equal(convolved.offset(), 0, "offset of the convolution of a signal with its inverse")
        close(convolved.channels(), delta, "convolution of a signal with its inverse", atol=1e-11 * condition)
        again = ~inverse
        equal(again.offset(), case["o"], "offset of the inverse of the inverse")
        close(again.channels(), x, "inverse of the inverse", atol=1e-11 * condition * float(numpy.abs(x).max()))
    # the transfer function of the inverse is the inverse of the transfer function
    product = inverse.fourier_transform() * s.fourier_transform()
    close(product.channels(), numpy.ones(product.shape()), "product of the Fourier transforms of a signal and its inverse", atol=1e-11 * condition)
    snapshot.check("inverse")
    # scaling
    close((~(s * 4.0)).channels(), inverse.channels() / 4.0, "inverse of a scaled signal", rtol=1e-9, atol=1e-9 * float(numpy.abs(inverse.channels()).max()))


SUBS = [Sub("inverse", invertible(), check_inverse, quick=8000, rule="more than two samples"),
        large.sub("P10")]
ASSUMPTIONS = ["the (zero padded, if the length is odd) spectrum has no magnitude below 1e-6 of its maximum"]
