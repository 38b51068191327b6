"""The Fourier transform is the DFT on the true time axis and is invertible"""

from hypothesis import strategies as st
import numpy
import sumpf
from vlib import gen, large
from vlib.core import Sub, close, equal, require
from vlib.gen import check_meta

lengths = st.one_of(st.integers(1, 12), st.integers(1, 70), st.sampled_from([64, 97, 100, 127, 128, 240, 243]))
big_offsets = st.one_of(st.just(0), st.integers(-6, 6), st.integers(-500, 500))


def dft(data, start, sign=-1):
    """the sum of the samples times exp(-2*pi*i*f*t) with an exactly reduced phase"""
    n = data.shape[-1]
    k = numpy.arange(n // 2 + 1)
    t = numpy.arange(n) + start
    phase = (numpy.outer(t, k) % n) / n     # integer arithmetic, so that no precision is lost
    return data @ numpy.exp(sign * 2j * numpy.pi * phase)


def tolerance(data, offset):
    return float(numpy.sum(numpy.abs(data), axis=-1).max(initial=0.0)) * (1e-11 + 1e-14 * abs(offset)) + 1e-300


@st.composite
def forward_case(draw):
    return draw(gen.signals(channels=(1, 4), lengths=lengths, offset=big_offsets))


def check_forward(case, ctx):
    s = gen.make(case)
    data = numpy.array(gen.make_array(case["a"]))
    n = data.shape[1]
    snapshot = gen.Snapshot(s)
    spectrum = s.fourier_transform()
    expected = dft(data, case["o"])
    ctx.nontrivial_if(n > 1 and numpy.any(data))
    ctx.label("odd" if n % 2 else "even", "offset" if case["o"] else "no offset")
    check_meta(spectrum, "fourier_transform", cls=sumpf.Spectrum, res=case["sr"] / n, labels=gen.full_labels(case), shape=(len(data), n // 2 + 1))
    close(spectrum.channels(), expected, "fourier_transform", rtol=1e-9, atol=tolerance(data, case["o"]))
    snapshot.check("fourier_transform")
    # the frequency axis
    close(spectrum.frequency_samples(), numpy.arange(n // 2 + 1) * case["sr"] / n, "frequencies of the bins", rtol=1e-12)
    # the round trip
    back = spectrum.inverse_fourier_transform()
    if n % 2 == 0:
        check_meta(back, "round trip", cls=sumpf.Signal, sr=case["sr"], offset=0, labels=gen.full_labels(case), shape=data.shape)
        if case["o"] == 0:
            expected = data
        else:   # the offset is now a cyclic shift
            expected = numpy.roll(data, case["o"], axis=1)
        close(back.channels(), expected, "signal -> spectrum -> signal", rtol=1e-9, atol=tolerance(data, case["o"]))


@st.composite
def large_case(draw):
    return {"a": draw(gen.signals(channels=(1, 2), lengths=st.integers(300, 5000), offset=st.integers(-3000, 3000), explicit=0, layouts=("C", "F"))),
            "bins": draw(st.lists(st.floats(0.0, 1.0), min_size=3, max_size=6))}


def check_large(case, ctx):
    s = gen.make(case["a"])
    data = numpy.array(gen.make_array(case["a"]["a"]))
    n = data.shape[1]
    o = case["a"]["o"]
    spectrum = s.fourier_transform()
    equal(spectrum.length(), n // 2 + 1, "number of bins")
    ctx.nontrivial_if(True)
    for b in [0.0, 1.0] + case["bins"]:
        k = int(b * (n // 2))
        phase = (((numpy.arange(n) + o) * k) % n) / n
        expected = data @ numpy.exp(-2j * numpy.pi * phase)
        close(spectrum.channels()[:, k], expected, f"bin {k} of {n // 2 + 1}", rtol=1e-9, atol=tolerance(data, o))


@st.composite
def inverse_case(draw):
    return {"a": draw(gen.spectrums(channels=(1, 4), lengths=st.one_of(st.integers(1, 9), st.integers(1, 60)))), "real": draw(st.booleans())}


def check_inverse(case, ctx):
    s = gen.make(case["a"])
    data = numpy.array(gen.make_array(case["a"]["a"]), dtype=complex)
    bins = data.shape[1]
    snapshot = gen.Snapshot(s)
    signal = s.inverse_fourier_transform()
    n = max(2 * (bins - 1), 1)
    ctx.nontrivial_if(bins > 2)
    x = numpy.zeros((len(data), n))
    t = numpy.arange(n)
    for k in range(bins):
        phase = 2j * numpy.pi * ((t * k) % n) / n
        weight = 1.0 if k in (0, bins - 1) else 2.0
        x += weight * (data[:, k:k + 1].real * numpy.cos(phase.imag) - (0.0 if k in (0, bins - 1) else 1.0) * data[:, k:k + 1].imag * numpy.sin(phase.imag)) / n
    check_meta(signal, "inverse_fourier_transform", cls=sumpf.Signal, sr=case["a"]["r"] * n, offset=0, labels=gen.full_labels(case["a"]), shape=x.shape)
    tol = float(numpy.sum(numpy.abs(data), axis=1).max(initial=0.0)) * 1e-11 + 1e-300
    close(signal.channels(), x, "inverse_fourier_transform", rtol=1e-9, atol=tol)
    snapshot.check("inverse_fourier_transform")
    if bins > 1:    # spectrum -> signal -> spectrum (the imaginary parts at 0Hz and the Nyquist frequency have no real-valued counterpart)
        again = signal.fourier_transform()
        expected = data.copy()
        expected[:, 0] = data[:, 0].real
        expected[:, -1] = data[:, -1].real
        close(again.channels(), expected, "spectrum -> signal -> spectrum", rtol=1e-9, atol=tol * 10)
        check_meta(again, "spectrum -> signal -> spectrum", res=case["a"]["r"], labels=gen.full_labels(case["a"]))


@st.composite
def relation_case(draw):
    n = draw(st.integers(1, 100))
    c = draw(st.integers(1, 3))
    o = draw(big_offsets)
    sr = draw(gen.sampling_rate)
    kw = dict(channels=st.just(c), lengths=st.just(n), sr=st.just(sr), kinds=("normal", "uniform", "sparse"), scales=(1.0,))
    return {"a": draw(gen.signals(offset=st.just(o), **kw)), "b": draw(gen.signals(offset=st.just(o), **kw)),
            "factor": draw(gen.small_float), "shift": draw(st.integers(-50, 50))}


def check_relations(case, ctx):
    a, b = gen.make(case["a"]), gen.make(case["b"])
    x, y = a.fourier_transform(), b.fourier_transform()
    tol = 10 * (tolerance(a.channels(), 600) + tolerance(b.channels(), 600)) * (1 + abs(case["factor"]))
    ctx.nontrivial_if(a.length() > 1)
    close((a * case["factor"] + b).fourier_transform().channels(), (x * case["factor"] + y).channels(), "linearity", atol=tol)
    # Parseval
    n = a.length()
    weights = numpy.full(n // 2 + 1, 2.0)
    weights[0] = 1.0
    if n % 2 == 0:
        weights[-1] = 1.0
    close(numpy.sum(numpy.abs(x.channels()) ** 2 * weights, axis=1) / n, numpy.sum(a.channels() ** 2, axis=1), "Parseval's theorem", rtol=1e-9, atol=1e-9)
    # a shifted signal only has a different phase
    d = case["shift"]
    shifted = a.shift(d).fourier_transform() if d else x
    factor = numpy.exp(-2j * numpy.pi * ((numpy.arange(n // 2 + 1) * d) % n) / n)
    close(shifted.channels(), x.channels() * factor, "phase of a delayed signal", atol=tol)
    # cyclic shifting of the samples is the same as the offset
    if abs(d) <= n and d:
        cycled = a.shift(d, sumpf.Signal.shift_modes.CYCLE).fourier_transform()
        close(cycled.channels(), shifted.channels(), "cyclic shift and offset", atol=tol)
    # channels are independent
    for i in range(len(a)):
        require(numpy.allclose(a[i].fourier_transform().channels()[0], x.channels()[i], rtol=1e-12, atol=tol), f"channel {i} alone has a different transform")


@st.composite
def empty_case(draw):
    return {"channels": draw(st.integers(0, 3)), "length": draw(st.integers(0, 9)), "sr": draw(gen.sampling_rate), "o": draw(gen.offsets), "spectrum": draw(st.booleans())}


def check_empty(case, ctx):
    c, n = case["channels"], case["length"]
    if c:
        n = 0
    ctx.nontrivial_if(True)
    if case["spectrum"]:
        s = sumpf.Spectrum(channels=numpy.empty((c, n), dtype=complex), resolution=case["sr"], labels=["x"] * c)
        t = s.inverse_fourier_transform()
        require(isinstance(t, sumpf.Signal), "type")
        equal(t.shape(), (c, 0 if n == 0 else max(1, 2 * (n - 1))), "shape of the inverse transform of empty data")
        if n == 0:
            equal(t.length(), 0, "length")
    else:
        s = sumpf.Signal(channels=numpy.empty((c, n)), sampling_rate=case["sr"], offset=case["o"], labels=["x"] * c)
        t = s.fourier_transform()
        require(isinstance(t, sumpf.Spectrum), "type")
        equal(t.shape(), (c, n // 2 + 1), "shape of the transform of empty data")
        require(not t.channels().any(), "transform of empty data is not zero")
        if n:
            equal(t.resolution(), case["sr"] / n, "resolution")
    equal(tuple(t.labels()), ("x",) * c, "labels")


SUBS = [
    Sub("forward", forward_case(), check_forward, quick=6000, rule="signals with more than one sample, that are not zero"),
    Sub("large", large_case(), check_large, quick=400, rule="lengths from 300 to 5000, checked at some bins"),
    Sub("inverse", inverse_case(), check_inverse, quick=4000, rule="more than two bins"),
    Sub("relation", relation_case(), check_relations, quick=3000, rule="more than one sample"),
    Sub("empty", empty_case(), check_empty, quick=400, rule="data without samples or channels"),
    large.sub("P06"),
]
ASSUMPTIONS = ["real signals; tolerance 1e-9 relative plus 1e-11 of the sum of magnitudes",
               "imaginary parts at 0 Hz and the Nyquist frequency are ignored by the inverse transform"]
