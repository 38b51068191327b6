"""Cases with the sizes of real measurements, for which the element-wise models of the checks are too slow. The models
in here are vectorised or look at a sample of the positions."""

import math
import operator
from hypothesis import strategies as st
import numpy
import sumpf
from . import gen
from .core import Sub, close, equal, nearly, require, same_array

LENGTHS = (8191, 8192, 8193, 10000, 16384, 16385, 20011, 32768, 32769, 48000, 65535, 65536, 65537, 100003)
length = st.sampled_from(LENGTHS)
near_length = st.one_of(length, st.integers(5000, 70000))


def _rng(case):
    return numpy.random.Generator(numpy.random.PCG64(case["seed"]))


def _labels(n, prefix="c"):
    return tuple(f"{prefix}{i}" for i in range(n))


def _signal(rng, channels, n, offset=0, sampling_rate=48000.0, prefix="c"):
    return sumpf.Signal(channels=rng.normal(size=(channels, n)), sampling_rate=sampling_rate, offset=offset, labels=_labels(channels, prefix))


# ---------------------------------------------------------------------------
# arithmetic
# ---------------------------------------------------------------------------

@st.composite
def arithmetic_cases(draw):
    n = draw(near_length)
    return {"n1": n, "n2": draw(st.one_of(st.just(n), near_length)), "c1": draw(st.integers(1, 3)), "c2": draw(st.integers(1, 3)), "seed": draw(gen.seed),
            "o1": draw(st.integers(-3, 3)), "o2": draw(st.one_of(st.integers(-3, 3), st.integers(-80000, 80000))), "op": draw(st.sampled_from(["add", "sub", "mul"]))}


def check_arithmetic(case, ctx):
    rng = _rng(case)
    a, b = _signal(rng, case["c1"], case["n1"], case["o1"]), _signal(rng, case["c2"], case["n2"], case["o2"], prefix="d")
    x, y = numpy.array(a.channels()), numpy.array(b.channels())
    function = getattr(operator, case["op"])
    snapshot = gen.Snapshot(a, b)
    result = function(a, b)
    start, stop = min(case["o1"], case["o2"]), max(case["o1"] + case["n1"], case["o2"] + case["n2"])
    c = max(len(x), len(y))
    expected = numpy.zeros((c, stop - start))
    overlap = slice(max(case["o1"], case["o2"]) - start, min(case["o1"] + case["n1"], case["o2"] + case["n2"]) - start)
    for i in range(c):
        has_x, has_y = len(x) == 1 or i < len(x), len(y) == 1 or i < len(y)
        p, q = numpy.zeros(stop - start), numpy.zeros(stop - start)
        here_x, here_y = numpy.zeros(stop - start, dtype=bool), numpy.zeros(stop - start, dtype=bool)
        if has_x:
            s = slice(case["o1"] - start, case["o1"] - start + case["n1"])
            p[s] = x[i if len(x) > 1 else 0]
            here_x[s] = True
        if has_y:
            s = slice(case["o2"] - start, case["o2"] - start + case["n2"])
            q[s] = y[i if len(y) > 1 else 0]
            here_y[s] = True
        both = here_x & here_y
        if case["op"] == "mul":
            expected[i] = numpy.where(both, p * q, p + q)
        else:
            expected[i] = function(p, q)
    what = f"{case['op']} of signals with {case['n1']} and {case['n2']} samples"
    gen.check_meta(result, what, cls=sumpf.Signal, sr=48000.0, offset=start, shape=expected.shape)
    close(result.channels(), expected, what, rtol=1e-13)
    snapshot.check(what)
    ctx.nontrivial_if(overlap.start < overlap.stop)
    ctx.label(case["op"])


# ---------------------------------------------------------------------------
# moving samples
# ---------------------------------------------------------------------------

@st.composite
def moving_cases(draw):
    n = draw(near_length)
    return {"n": n, "c": draw(st.integers(1, 3)), "seed": draw(gen.seed), "o": draw(st.integers(-10, 10)), "shift": draw(st.one_of(st.integers(-5, 5), st.integers(-n + 1, n - 1))),
            "pad": draw(st.one_of(st.integers(0, 2 * n), st.integers(n - 2, n + 2))), "value": draw(st.sampled_from([0.0, 1.5])),
            "start": draw(st.integers(0, n - 1)), "stop": draw(st.integers(0, n)), "step": draw(st.sampled_from([1, 1, 2, 3, 1000]))}


def check_moving(case, ctx):
    a = _signal(_rng(case), case["c"], case["n"], case["o"])
    x = numpy.array(a.channels())
    n, c, k = case["n"], case["c"], case["shift"]
    snapshot = gen.Snapshot(a)
    modes = sumpf.Signal.shift_modes
    crop = numpy.zeros((c, n))
    if k >= 0:
        crop[:, k:] = x[:, 0:n - k]
    else:
        crop[:, 0:n + k] = x[:, -k:]
    zeros = numpy.zeros((c, abs(k)))
    padded = numpy.hstack((zeros, x) if k >= 0 else (x, zeros))
    m = case["pad"]
    extended = numpy.full((c, m), case["value"])
    extended[:, 0:min(m, n)] = x[:, 0:m]
    for what, result, expected in ((f"shift({k}, CROP)", a.shift(k, modes.CROP), crop), (f"shift({k}, CYCLE)", a.shift(k, modes.CYCLE), numpy.roll(x, k, axis=1)),
                                   (f"shift({k}, PAD)", a.shift(k, modes.PAD), padded), (f"shift({k}, OFFSET)", a.shift(k), x), (f"pad({m})", a.pad(m, case["value"]), extended),
                                   ("reversed", reversed(a), x[:, ::-1]), ("negative", -a, -x), ("absolute", abs(a), numpy.abs(x))):
        gen.check_meta(result, f"{what} of {n} samples", sr=48000.0, labels=_labels(c), shape=expected.shape)
        same_array(result.channels() + 0.0, expected + 0.0, f"{what} of {n} samples")
    equal(a.shift(k).offset(), case["o"] + k, "offset of the shifted signal")
    snapshot.check("moving samples")
    ctx.nontrivial_if(k != 0)


def check_slicing(case, ctx):
    rng = _rng(case)
    a = _signal(rng, case["c"], case["n"], case["o"])
    b = sumpf.Spectrum(channels=rng.normal(size=(case["c"], case["n"])) + 1j * rng.normal(size=(case["c"], case["n"])), resolution=0.5, labels=_labels(case["c"]))
    s = slice(case["start"], case["stop"], case["step"])
    for d in (a, b):
        same_array(d[:, s].channels() if d is a or s.step == 1 else d[:, s.start:s.stop].channels(),
                   d.channels()[:, s] if d is a or s.step == 1 else d.channels()[:, s.start:s.stop], f"a {type(d).__name__} with {case['n']} values, indexed with {s}")
        equal(d[:, s].labels(), _labels(case["c"]), "labels")
    if s.start < s.stop:
        equal(a[:, s].offset(), case["o"] + s.start, "offset of the slice")
        ctx.nontrivial_if(True)


# ---------------------------------------------------------------------------
# transforms
# ---------------------------------------------------------------------------

@st.composite
def transform_cases(draw):
    return {"n": draw(near_length), "c": draw(st.integers(1, 2)), "seed": draw(gen.seed), "o": draw(st.one_of(st.just(0), st.integers(-50, 50), st.integers(-100000, 100000)))}


def check_transform(case, ctx):
    rng = _rng(case)
    n, o = case["n"], case["o"]
    a = _signal(rng, case["c"], n, o)
    x = a.channels()
    spectrum = a.fourier_transform()
    bins = n // 2 + 1
    what = f"the Fourier transform of {n} samples with the offset {o}"
    gen.check_meta(spectrum, what, cls=sumpf.Spectrum, res=48000.0 / n, labels=_labels(case["c"]), shape=(case["c"], bins))
    k = numpy.unique(numpy.concatenate(([0, 1, bins - 2, bins - 1], rng.integers(0, bins, 8))))
    t = numpy.arange(n) + o
    for i in k:
        expected = x @ numpy.exp(-2j * numpy.pi * ((t * int(i)) % n) / n)
        close(spectrum.channels()[:, i], expected, f"{what}: bin {i}", rtol=1e-9, atol=1e-9 * math.sqrt(n) * (1.0 + abs(o) / n))
    if n % 2 == 0:
        back = spectrum.inverse_fourier_transform()
        gen.check_meta(back, what, cls=sumpf.Signal, sr=48000.0, offset=0, shape=(case["c"], n))
        require(numpy.allclose(back.channels(), numpy.roll(x, o, axis=1), rtol=1e-9, atol=1e-9 * (1.0 + abs(o) / n)), f"{what} and back") if o % 1 == 0 and _nyquist_is_real(spectrum) else None
    ctx.nontrivial_if(True)


def _nyquist_is_real(spectrum):
    return bool((numpy.abs(spectrum.channels()[:, -1].imag) <= 1e-9 * numpy.abs(spectrum.channels()).max()).all())


@st.composite
def convolution_cases(draw):
    n = draw(near_length)
    return {"n1": n, "n2": draw(st.one_of(st.integers(1, 300), near_length)), "c1": draw(st.integers(1, 2)), "c2": draw(st.integers(1, 2)), "seed": draw(gen.seed),
            "o1": draw(st.integers(-5, 5)), "o2": draw(st.integers(-5, 5)), "op": draw(st.sampled_from(["convolve", "correlate"])), "full": draw(st.booleans()), "swap": draw(st.booleans())}


def check_convolution(case, ctx):
    rng = _rng(case)
    n1, n2 = case["n1"], case["n2"]
    full = case["full"] and n2 <= 300
    a, b = _signal(rng, case["c1"], n1, case["o1"]), _signal(rng, case["c2"], n2, case["o2"], prefix="d")
    if case["swap"]:
        a, b = b, a
    modes = sumpf.Signal.convolution_modes
    result = getattr(a, case["op"])(b, modes.FULL if full else modes.SPECTRUM_PADDED)
    what = f"{case['op']} of {a.length()} and {b.length()} samples with {'FULL' if full else 'SPECTRUM_PADDED'}"
    x, y = a.channels(), b.channels()
    r, o = result.channels(), result.offset()
    c = max(len(x), len(y))
    equal(len(result), c, f"{what}: number of channels")
    if case["op"] == "convolve":
        first = a.offset() + b.offset()
    else:
        # sum over t of a(t) * b(t + lag): the lags range from the start of b minus the end of a to the end of b minus the start of a
        first = b.offset() - (a.offset() + a.length() - 1)
    last = first + a.length() + b.length() - 2
    lags = numpy.unique(numpy.concatenate(([first, first + 1, last - 1, last, 0], rng.integers(first, last + 1, 12))))
    scale = math.sqrt(min(n1, n2)) * 20.0
    for lag in lags:
        lag = int(lag)
        t0, t1 = a.offset(), a.offset() + a.length()
        t = numpy.arange(t0, t1)
        u = lag - t if case["op"] == "convolve" else lag + t
        mask = (u >= b.offset()) & (u < b.offset() + b.length())
        for i in range(c):
            p, q = x[i if len(x) > 1 else 0], y[i if len(y) > 1 else 0]
            expected = float(p[mask] @ q[u[mask] - b.offset()])
            index = lag - o
            actual = r[i, index] if 0 <= index < r.shape[1] else 0.0
            require(abs(actual - expected) <= 1e-10 * scale, lambda: f"{what}: {actual} instead of {expected} at the lag {lag}")
    ctx.nontrivial_if(n2 > 1)
    ctx.label(case["op"])


def check_statistics(case, ctx):
    rng = _rng(case)
    n = case["n"]
    a = _signal(rng, case["c"], n, case["o"])
    x = a.channels()
    for i in range(case["c"]):
        values = x[i].tolist()
        mean = math.fsum(values) / n
        squares = math.fsum(v * v for v in values) / n
        variance = math.fsum((v - mean) ** 2 for v in values) / n
        nearly(float(a.level()[i]), math.sqrt(squares), f"level of {n} samples", rtol=1e-11)
        nearly(float(a.mean()[i]), mean, f"mean of {n} samples", rtol=1e-9, atol=1e-12)
        nearly(float(a.variance()[i]), variance, f"variance of {n} samples", rtol=1e-11)
        nearly(float(a.standard_deviation()[i]), math.sqrt(variance), f"standard deviation of {n} samples", rtol=1e-11)
        nearly(float(a.skewness()[i]), math.fsum((v - mean) ** 3 for v in values) / n / variance ** 1.5, f"skewness of {n} samples", rtol=1e-8, atol=1e-11)
        nearly(float(a.kurtosis()[i]), math.fsum((v - mean) ** 4 for v in values) / n / variance ** 2 - 3.0, f"kurtosis of {n} samples", rtol=1e-8, atol=1e-10)
    decay = sumpf.EnergyDecayCurve(a).channels()
    for k in numpy.concatenate(([0, n - 1], rng.integers(0, n, 4))):
        expected = numpy.square(x[:, k:]).sum(axis=1)
        close(decay[:, k], expected, f"energy decay of {n} samples at {k}", rtol=1e-10)
    ctx.nontrivial_if(True)


# ---------------------------------------------------------------------------
# blocks
# ---------------------------------------------------------------------------

@st.composite
def block_cases(draw):
    return {"n": draw(st.lists(near_length, min_size=2, max_size=4)), "c": draw(st.integers(1, 2)), "o": draw(st.lists(st.one_of(st.just(0), st.integers(-3000, 3000)), min_size=4, max_size=4)), "seed": draw(gen.seed)}


def check_concatenate(case, ctx):
    rng = _rng(case)
    parts = [_signal(rng, case["c"] + i % 2, n, o) for i, (n, o) in enumerate(zip(case["n"], case["o"]))]
    result = sumpf.Concatenate(parts).output()
    spans, stop = [], None
    for p in parts:
        start = p.offset() if stop is None else stop + p.offset()
        spans.append(start)
        stop = start + p.length()
    first = min(spans)
    end = max(s + p.length() for s, p in zip(spans, parts))
    expected = numpy.zeros((max(len(p) for p in parts), end - first))
    for s, p in zip(spans, parts):
        expected[0:len(p), s - first:s - first + p.length()] += p.channels()
    what = f"the concatenation of {case['n']} samples"
    gen.check_meta(result, what, cls=sumpf.Signal, sr=48000.0, offset=first, shape=expected.shape)
    close(result.channels(), expected, what, rtol=1e-12, atol=1e-13)
    ctx.nontrivial_if(True)


def check_merge(case, ctx):
    rng = _rng(case)
    parts = [_signal(rng, case["c"] + i % 2, n, o, prefix=f"{i}:") for i, (n, o) in enumerate(zip(case["n"], case["o"]))]
    result = sumpf.Merge(parts).output()
    first, end = min(p.offset() for p in parts), max(p.offset() + p.length() for p in parts)
    expected = numpy.zeros((sum(len(p) for p in parts), end - first))
    row, labels = 0, []
    for p in parts:
        expected[row:row + len(p), p.offset() - first:p.offset() - first + p.length()] = p.channels()
        row += len(p)
        labels.extend(p.labels())
    what = f"the combination of {case['n']} samples"
    gen.check_meta(result, what, cls=sumpf.Signal, sr=48000.0, offset=first, labels=labels, shape=expected.shape)
    same_array(result.channels(), expected, what)
    ctx.nontrivial_if(True)


# ---------------------------------------------------------------------------
# spectrums and spectrograms
# ---------------------------------------------------------------------------

@st.composite
def spectrum_cases(draw):
    return {"n": draw(near_length), "c1": draw(st.integers(1, 3)), "c2": draw(st.integers(1, 3)), "seed": draw(gen.seed), "op": draw(st.sampled_from(["add", "sub", "mul", "truediv"]))}


def _complex(rng, *shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def _combine(x, y, op):
    """combines arrays, the first dimension of which are the channels"""
    c = max(len(x), len(y))
    rows = []
    for i in range(c):
        p = x[i if len(x) > 1 else 0] if len(x) == 1 or i < len(x) else None
        q = y[i if len(y) > 1 else 0] if len(y) == 1 or i < len(y) else None
        if q is None:
            rows.append(p)
        elif p is None:
            rows.append({"sub": lambda v: -v, "truediv": lambda v: 1.0 / v}.get(op, lambda v: v)(q))
        else:
            rows.append(getattr(operator, op)(p, q))
    return numpy.array(rows)


def check_spectrum(case, ctx):
    rng = _rng(case)
    n = case["n"]
    x, y = _complex(rng, case["c1"], n), _complex(rng, case["c2"], n)
    a = sumpf.Spectrum(channels=x.copy(), resolution=0.7, labels=_labels(len(x)))
    b = sumpf.Spectrum(channels=y.copy(), resolution=0.7, labels=_labels(len(y)))
    snapshot = gen.Snapshot(a, b)
    what = f"{case['op']} of spectrums with {n} bins"
    result = getattr(operator, case["op"])(a, b)
    gen.check_meta(result, what, cls=sumpf.Spectrum, res=0.7, shape=(max(len(x), len(y)), n))
    close(result.channels(), _combine(x, y, case["op"]), what, rtol=1e-12)
    close((~a).channels(), 1.0 / x, f"inverse of {n} bins", rtol=1e-12)
    close(abs(a).channels(), numpy.abs(x), f"absolute of {n} bins", rtol=1e-12)
    close((a * 2.5 - 1j).channels(), x * 2.5 - 1j, f"a spectrum of {n} bins and a number", rtol=1e-12)
    snapshot.check(what)
    ctx.nontrivial_if(True)


@st.composite
def spectrogram_cases(draw):
    return {"b": draw(st.sampled_from([257, 513, 1025, 2049])), "n1": draw(st.integers(10, 60)), "n2": draw(st.integers(10, 60)), "o": draw(st.integers(-30, 30)), "c1": draw(st.integers(1, 2)), "c2": draw(st.integers(1, 2)),
            "seed": draw(gen.seed), "op": draw(st.sampled_from(["add", "mul"]))}


def check_spectrogram(case, ctx):
    rng = _rng(case)
    bins, n1, n2, o = case["b"], case["n1"], case["n2"], case["o"]
    x, y = _complex(rng, case["c1"], bins, n1), _complex(rng, case["c2"], bins, n2)
    a = sumpf.Spectrogram(channels=x.copy(), resolution=0.7, sampling_rate=10.0, offset=0)
    b = sumpf.Spectrogram(channels=y.copy(), resolution=0.7, sampling_rate=10.0, offset=o)
    result = getattr(operator, case["op"])(a, b)
    what = f"{case['op']} of spectrograms with {bins} bins and {n1} and {n2} samples"
    first, stop = min(0, o), max(n1, o + n2)
    c = max(len(x), len(y))
    total, both = numpy.zeros((2, c, bins, stop - first), dtype=complex), numpy.zeros((2, c, stop - first), dtype=bool)
    for i in range(c):
        for j, (z, start) in enumerate(((x, 0), (y, o))):
            if len(z) == 1 or i < len(z):
                total[j, i, :, start - first:start - first + z.shape[2]] = z[i if len(z) > 1 else 0]
                both[j, i, start - first:start - first + z.shape[2]] = True
    expected = total[0] + total[1]
    if case["op"] == "mul":
        expected = numpy.where((both[0] & both[1])[:, numpy.newaxis, :], total[0] * total[1], expected)
    gen.check_meta(result, what, cls=sumpf.Spectrogram, res=0.7, sr=10.0, offset=first, shape=expected.shape)
    close(result.channels(), expected, what, rtol=1e-12)
    ctx.nontrivial_if(True)


@st.composite
def stft_cases(draw):
    w = draw(st.sampled_from([2048, 4096, 4097, 8192]))
    return {"n": draw(st.integers(w, 40000)), "w": w, "overlap": draw(st.sampled_from([0.5, 0.75, 0.25])), "c": draw(st.integers(1, 2)), "seed": draw(gen.seed), "o": draw(st.integers(-20000, 20000)), "default": draw(st.booleans())}


def check_stft(case, ctx):
    rng = _rng(case)
    n, w, o = case["n"], case["w"], case["o"]
    a = _signal(rng, case["c"], n, o)
    default = case["default"] and w == 4096 and case["overlap"] == 0.5
    result = a.short_time_fourier_transform() if default else a.short_time_fourier_transform(w, case["overlap"])
    overlap = int(round(case["overlap"] * w))
    step = w - overlap
    window = 0.5 - 0.5 * numpy.cos(2.0 * numpy.pi * numpy.arange(w) / w)
    segments = 1 + -(-(n + 2 * (w // 2) - w) // step)
    what = f"the short-time Fourier transform of {n} samples with windows of {w} and steps of {step} samples"
    gen.check_meta(result, what, cls=sumpf.Spectrogram, res=48000.0 / w, sr=48000.0 / step, labels=_labels(case["c"]), shape=(case["c"], w // 2 + 1, segments))
    remainder = o - result.offset() * step
    require(abs(remainder) * 2 <= step, f"{what}: offset")
    x = a.channels()
    for m in numpy.unique(numpy.concatenate(([0, segments - 1], rng.integers(0, segments, 3)))):
        start = int(m) * step - w // 2
        t = numpy.arange(max(start, 0), min(start + w, n))
        for k in numpy.concatenate(([0, w // 2], rng.integers(0, w // 2 + 1, 3))):
            e = numpy.exp(-2j * numpy.pi * (((t - start + remainder) * int(k)) % w) / w)
            expected = (x[:, t] * window[t - start]) @ e / window.sum()
            close(result.channels()[:, k, m], expected, f"{what}: bin {k} of segment {m}", rtol=1e-8, atol=1e-10)
    ctx.nontrivial_if(segments > 2)


def check_istft(case, ctx):
    rng = _rng(case)
    n, w = case["n"], case["w"]
    overlap = int(round(case["overlap"] * w))
    step = w - overlap
    o = case["o"] // step * step
    a = _signal(rng, case["c"], n, o)
    stft = a.short_time_fourier_transform(w, case["overlap"])
    back = stft.inverse_short_time_fourier_transform(w, case["overlap"])
    what = f"the STFT of {n} samples with windows of {w} and steps of {step} samples and back"
    gen.check_meta(back, what, cls=sumpf.Signal, sr=48000.0, offset=o, labels=_labels(case["c"]))
    require(back.length() >= n, what)
    close(back.channels()[:, 0:n], a.channels(), what, rtol=1e-8, atol=1e-8)
    ctx.nontrivial_if(True)


def check_inverse(case, ctx):
    """of a signal, that is dominated by its first sample"""
    rng = _rng(case)
    n = case["n"]
    x = rng.normal(size=(case["c"], n)) * numpy.exp(-numpy.arange(n) / 5.0) * 0.04
    x[:, 0] = 1.0
    a = sumpf.Signal(channels=x, sampling_rate=48000.0, offset=case["o"], labels=_labels(case["c"]))
    inverse = ~a
    what = f"the inverse of {n} samples"
    gen.check_meta(inverse, what, cls=sumpf.Signal, sr=48000.0, shape=(case["c"], n))
    product = numpy.fft.irfft(numpy.fft.rfft(inverse.channels(), n=n) * numpy.fft.rfft(x, n=n), n=n)
    impulse = numpy.zeros((case["c"], n))
    impulse[:, 0] = 1.0
    close(product, impulse, what, rtol=1e-9, atol=1e-9)
    ctx.nontrivial_if(True)


def check_filter(case, ctx):
    rng = _rng(case)
    n = case["n"]
    x = _complex(rng, case["c"], n)
    f = sumpf.ButterworthFilter(cutoff_frequency=float(rng.uniform(10.0, 5000.0)), order=int(rng.integers(1, 6)), highpass=bool(case["seed"] % 2)) * sumpf.DelayFilter(1e-4)
    s = sumpf.Spectrum(channels=x.copy(), resolution=0.7, labels=_labels(case["c"]))
    result, sampled = f * s, f.spectrum(resolution=0.7, length=n)
    gen.check_meta(result, "filtered spectrum", cls=sumpf.Spectrum, res=0.7, shape=(case["c"], n))
    gen.check_meta(sampled, "sampled filter", cls=sumpf.Spectrum, res=0.7, shape=(1, n))
    for k in numpy.unique(numpy.concatenate(([1, n - 1], rng.integers(1, n, 10)))):
        h = complex(f(float(k) * 0.7)[0])
        close(sampled.channels()[:, k], numpy.array([h]), f"bin {k} of {n} of a sampled filter", rtol=1e-9)
        close(result.channels()[:, k], h * x[:, k], f"bin {k} of {n} of a filtered spectrum", rtol=1e-9)
    ctx.nontrivial_if(True)


def check_axes(case, ctx):
    n, o = case["n"], case["o"]
    rng = _rng(case)
    a = _signal(rng, 1, n, o)
    t = a.time_samples()
    close(t, (numpy.arange(n) + o) / 48000.0, f"time samples of {n} samples with the offset {o}", rtol=1e-12, atol=1e-12 * (n + abs(o)) / 48000.0)
    nearly(a.duration(), n / 48000.0, "duration")
    z = _complex(rng, 1, n)
    s = sumpf.Spectrum(channels=z.copy(), resolution=0.7)
    close(s.frequency_samples(), numpy.arange(n) * 0.7, f"frequency samples of {n} bins", rtol=1e-12, atol=1e-12 * n)
    close(s.magnitude(), numpy.abs(z), "magnitude", rtol=1e-13)
    close(s.phase(), numpy.arctan2(z.imag, z.real), "phase", rtol=1e-13)
    same_array(s.real(), z.real, "real")
    same_array(s.imaginary(), z.imag, "imaginary")
    same_array(s.conjugate().channels(), numpy.conj(z), "conjugate")
    ctx.nontrivial_if(True)


def check_files(case, ctx):
    import os
    import tempfile
    rng = _rng(case)
    n, c = case["n"], case["c"]
    x = numpy.clip(rng.normal(size=(c, n)) * 0.2, -0.99, 0.99)
    s = sumpf.Signal(channels=x.copy(), sampling_rate=48000.0, offset=0, labels=_labels(c))
    formats = sumpf.Signal.file_formats
    for name, ext, error in (("NUMPY_NPZ", ".npz", 0.0), ("NUMPY_NPY", ".npy", 0.0), ("PYTHON_PICKLE", ".pickle", 0.0), ("WAV_INT16", ".wav", 2.0 ** -15), ("WAV_INT24", ".wav", 2.0 ** -23), ("WAV_FLOAT64", ".wav", 0.0),
                             ("AIFF_INT16", ".aif", 2.0 ** -15), ("FLAC_INT24", ".flac", 2.0 ** -23)):
        with tempfile.TemporaryDirectory() as folder:
            path = os.path.join(folder, "large" + ext)
            s.save(path, getattr(formats, name))
            loaded = sumpf.Signal.load(path)
        what = f"a signal with {n} samples in a {name} file"
        gen.check_meta(loaded, what, cls=sumpf.Signal, sr=48000.0, offset=0, shape=(c, n))
        close(loaded.channels(), x, what, rtol=0.0, atol=error * 1.01)
    ctx.nontrivial_if(True)


SUBS = {"P01": (arithmetic_cases, check_arithmetic, 150, "overlapping signals"), "P04": (moving_cases, check_slicing, 150, "a slice, that is not empty"),
        "P05": (moving_cases, check_moving, 150, "a shift by a distance other than zero"), "P06": (transform_cases, check_transform, 150, "always"),
        "P09": (convolution_cases, check_convolution, 160, "more than one sample"), "P11": (transform_cases, check_statistics, 80, "always"),
        "P22": (block_cases, check_concatenate, 120, "always"), "P23": (block_cases, check_merge, 120, "always"),
        "P02": (spectrum_cases, check_spectrum, 150, "always"), "P03": (spectrogram_cases, check_spectrogram, 150, "always"), "P07": (stft_cases, check_stft, 150, "more than two segments"),
        "P08": (stft_cases, check_istft, 150, "always"), "P10": (transform_cases, check_inverse, 150, "always"), "P14": (transform_cases, check_filter, 150, "always"),
        "P18": (transform_cases, check_files, 24, "always"), "P29": (transform_cases, check_axes, 150, "always")}


def sub(prop):
    strategy, check, quick, rule = SUBS[prop]
    return Sub("realistic", strategy(), check, quick=quick, rule=rule)
