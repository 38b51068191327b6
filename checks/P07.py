"""Block-wise and short-time Fourier transforms equal windowed DFT sums"""

from hypothesis import strategies as st
import numpy
import sumpf
from vlib import defaults, gen, large, windows
from vlib.core import Sub, close, require
from vlib.gen import check_meta

offsets = st.one_of(st.just(0), st.integers(-6, 6), st.integers(-200, 200))


@st.composite
def long_overlaps(draw, n):
    """Overlaps, which leave steps, that are not small compared to a window of ``n`` samples"""
    k = draw(st.one_of(st.sampled_from([0, n // 2, n // 4, 1]), st.integers(0, (3 * n) // 4)))
    return {"k": k, "v": draw(st.sampled_from([k, k - n, k / n])) if k else 0}


@st.composite
def long_case(draw):
    """Windows of some hundred samples and offsets, which are close to a multiple of the step"""
    w = draw(st.one_of(st.sampled_from([256, 511, 512, 1000, 1024]), st.integers(200, 1100)))
    n = draw(st.integers(w, w + 700))
    ov = draw(long_overlaps(w))
    step = w - ov["k"]
    channels = draw(st.integers(1, 2))
    offset = draw(st.integers(-4, 4)) * step + draw(st.one_of(st.integers(-3, 3), st.integers(-step, step)))
    return {"a": draw(gen.signals(channels=st.just(channels), lengths=st.just(n), offset=st.just(offset), scales=(1.0,))),
            "w": draw(windows.windows(w, draw(st.sampled_from([1, channels])))), "ov": ov, "pad": draw(st.booleans()), "default": draw(st.booleans())}


def check_long(case, ctx):
    check_stft(case, ctx)
    check_block(case, ctx)


@st.composite
def block_case(draw):
    w = draw(st.one_of(st.integers(2, 9), st.integers(2, 33)))
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 80)))
    channels = draw(st.integers(1, 3))
    wc = draw(st.sampled_from([1, 1, channels]) if channels > 1 else st.sampled_from([1, 1, 1, 2, 3]))
    return {"a": draw(gen.signals(channels=st.just(channels), lengths=st.just(n), offset=offsets, scales=(1.0,))),
            "w": draw(windows.windows(w, wc, scales=(1.0, 1.0, 1.0, 1e-9, 1e5))), "ov": draw(windows.overlaps(w)), "pad": draw(st.booleans()), "default": draw(st.booleans())}


def check_block(case, ctx):
    a = gen.make(case["a"])
    x = numpy.array(gen.make_array(case["a"]["a"]))
    sr, o = case["a"]["sr"], case["a"]["o"]
    window, values = windows.make_window(case["w"], sr)
    overlap, passed = case["ov"]["k"], case["ov"]["v"]
    w = windows.window_model(case["w"], values, passed)
    n, size = x.shape[1], w.shape[1]
    step = size - overlap
    snapshot = gen.Snapshot(a)
    before = numpy.array(values) if values is not None else None
    if case["pad"] and case["default"]:
        result = a.fourier_transform(window, passed)
    else:
        result = a.fourier_transform(window=window, overlap=passed, pad=case["pad"])
    # the naive model
    if case["pad"]:
        starts = [i for i in range(-step * size, n, step) if i > -size]
    else:
        starts = [i for i in range(0, n, step) if i + size <= n]
    c = max(len(x), len(w))
    bins = size // 2 + 1
    expected = numpy.zeros((c, bins), dtype=complex)
    k = numpy.arange(bins)
    for i in starts:
        t = numpy.arange(max(i, 0), min(i + size, n))
        e = numpy.exp(-2j * numpy.pi * (numpy.outer(t + o, k) % size) / size)
        for j in range(c):
            xx = x[j if len(x) > 1 else 0]
            ww = w[j if len(w) > 1 else 0]
            expected[j] += (xx[t] * ww[t - i]) @ e
    total = numpy.zeros(len(w))
    for s in range(-step * size, size, step):
        if s > -size:
            total += w[:, max(0, -s):size - max(0, s)].sum(axis=1)
    expected *= (size / total)[:, numpy.newaxis]
    what = f"fourier_transform(window={case['w']['form']}, overlap={passed}, pad={case['pad']})"
    ctx.nontrivial_if(overlap > 0 and len(starts) > 1)
    ctx.label(case["w"]["form"], "short" if n < size else "long", f"pad {case['pad']}", "odd" if size % 2 else "even")
    labels = gen.full_labels(case["a"])
    check_meta(result, what, cls=sumpf.Spectrum, res=sr / size, labels=labels + ("",) * (c - len(labels)), shape=(c, bins))
    scale = float(numpy.abs(x).max(initial=0.0)) * size * (len(starts) + 1) * float(numpy.abs(w).max()) * size / float(total.min())
    close(result.channels(), expected, what, rtol=1e-9, atol=1e-11 * scale * (1 + abs(o) / 100) + 1e-300)
    snapshot.check(what)
    if before is not None and not isinstance(window, sumpf.Signal):
        require(numpy.array_equal(numpy.atleast_2d(numpy.array(window)), before), f"{what}: the window has been modified")


@st.composite
def stft_case(draw):
    w = draw(st.one_of(st.integers(2, 9), st.integers(2, 33)))
    n = draw(st.one_of(st.integers(w, w + 8), st.integers(w, w + 90)))
    channels = draw(st.integers(1, 3))
    wc = draw(st.sampled_from([1, 1, channels]))
    return {"a": draw(gen.signals(channels=st.just(channels), lengths=st.just(n), offset=offsets, scales=(1.0,))),
            "w": draw(windows.windows(w, wc, scales=(1.0, 1.0, 1.0, 1e-9, 1e5))), "ov": draw(windows.overlaps(w)), "pad": draw(st.booleans()), "default": draw(st.booleans())}


def check_stft(case, ctx):
    a = gen.make(case["a"])
    x = numpy.array(gen.make_array(case["a"]["a"]))
    sr, o = case["a"]["sr"], case["a"]["o"]
    window, values = windows.make_window(case["w"], sr)
    overlap, passed = case["ov"]["k"], case["ov"]["v"]
    w = windows.window_model(case["w"], values, passed)
    n, size = x.shape[1], w.shape[1]
    step = size - overlap
    snapshot = gen.Snapshot(a)
    if case["pad"] and case["default"]:
        result = a.short_time_fourier_transform(window, passed)
    else:
        result = a.short_time_fourier_transform(window=window, overlap=passed, pad=case["pad"])
    what = f"short_time_fourier_transform(window={case['w']['form']}, overlap={passed}, pad={case['pad']})"
    if case["pad"]:
        half = size // 2
        extended = n + 2 * half
        segments = 1 + -(-(extended - size) // step)
        starts = [m * step - half for m in range(segments)]
    else:
        starts = list(range(0, n - size + 1, step))
    bins = size // 2 + 1
    check_meta(result, what, cls=sumpf.Spectrogram, res=sr / size, sr=sr / step, labels=gen.full_labels(case["a"]), shape=(len(x), bins, len(starts)))
    offset = result.offset()
    require(isinstance(offset, int) and abs(o - offset * step) * 2 <= step, lambda: f"{what}: the offset {o} became {offset}")
    remainder = o - offset * step
    k = numpy.arange(bins)
    expected = numpy.zeros((len(x), bins, len(starts)), dtype=complex)
    for m, i in enumerate(starts):
        t = numpy.arange(max(i, 0), min(i + size, n))
        e = numpy.exp(-2j * numpy.pi * (numpy.outer(t - i + remainder, k) % size) / size)
        for j in range(len(x)):
            ww = w[j if len(w) > 1 else 0]
            expected[j, :, m] = ((x[j, t] * ww[t - i]) @ e) / ww.sum()
    ctx.nontrivial_if(overlap > 0 and len(starts) > 1)
    ctx.label(case["w"]["form"], f"pad {case['pad']}", "remainder" if remainder else "no remainder", "odd" if size % 2 else "even")
    scale = float(numpy.abs(x).max(initial=0.0)) * size
    close(result.channels(), expected, what, rtol=1e-9, atol=1e-11 * scale + 1e-300)
    snapshot.check(what)


@st.composite
def forms_case(draw):
    """The same window and overlap, expressed in different ways"""
    w = draw(st.integers(4, 32))
    a = draw(gen.signals(channels=(1, 3), lengths=st.integers(w, w + 60), offset=offsets, scales=(1.0,)))
    k = draw(st.integers(1, w - 1))
    return {"a": a, "w": w, "k": k, "pad": draw(st.booleans())}


def check_forms(case, ctx):
    a = gen.make(case["a"])
    n, k, pad = case["w"], case["k"], case["pad"]
    ctx.nontrivial_if(k != n // 2)
    hann = windows.hann(n)
    expressions = [(n, k), (hann, k), (hann.tolist(), k - n), (sumpf.HannWindow(length=n, symmetric=False, sampling_rate=a.sampling_rate()), k / n),
                   (numpy.array([hann]), (k - n) / n), (n, k / n), (n, k - n), (numpy.array([hann] * len(a)), k)]
    for name in ("fourier_transform", "short_time_fourier_transform"):
        reference = getattr(a, name)(n, k, pad)
        scale = float(numpy.abs(reference.channels()).max(initial=0.0)) + float(numpy.abs(a.channels()).max(initial=0.0)) * n
        for i, (w, o) in enumerate(expressions):
            other = getattr(a, name)(w, o, pad)
            close(other.channels(), reference.channels(), f"{name} with expression {i} of the same window and overlap", atol=1e-10 * scale)
            require(other.labels() == reference.labels() and numpy.isclose(other.resolution(), reference.resolution()), f"{name}: meta data with expression {i}")


SUBS = [
    Sub("block", block_case(), check_block, quick=6000, rule="overlapping windows and more than one segment"),
    Sub("stft", stft_case(), check_stft, quick=5000, rule="overlapping windows and more than one segment"),
    Sub("long", long_case(), check_long, quick=250, rule="overlapping windows and more than one segment"),
    Sub("forms", forms_case(), check_forms, quick=800, rule="an overlap other than 50%"),
    defaults.sub("P07", 200),
    large.sub("P07"),
]
ASSUMPTIONS = ["overlap smaller than the window; for the short-time transform the signal is at least as long as the window (as scipy demands)",
               "windows with positive sums; multi-channel windows have one channel or as many as the signal"]
