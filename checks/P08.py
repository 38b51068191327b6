"""Inverse short-time Fourier transform reconstructs the signal"""

from hypothesis import strategies as st
import numpy
import sumpf
from vlib import defaults, gen, large, windows
from vlib.core import Reject, Sub, close, require
from vlib.gen import check_meta


@st.composite
def round_case(draw):
    w = draw(st.one_of(st.integers(2, 9), st.integers(2, 40)))
    n = draw(st.one_of(st.integers(w, w + 8), st.integers(w, w + 150)))
    channels = draw(st.integers(1, 3))
    ov = draw(windows.overlaps(w))
    window = draw(windows.windows(w, draw(st.sampled_from([1, 1, channels]))))
    step = w - ov["k"]
    a = draw(gen.signals(channels=st.just(channels), lengths=st.just(n), offset=st.integers(-20, 20).map(lambda k: k * step), scales=(1.0,)))
    ov2 = {"k": ov["k"], "v": draw(st.sampled_from([ov["k"], ov["k"] - w, ov["k"] / w])) if ov["k"] else ov["v"]}
    return {"a": a, "w": window, "ov": ov, "ov2": ov2, "other_form": draw(st.booleans()), "pad": draw(st.sampled_from([True, True, True, False]))}


@st.composite
def long_case(draw):
    """Windows of some hundred samples"""
    w = draw(st.one_of(st.sampled_from([256, 511, 512, 1000, 1024]), st.integers(200, 1100)))
    n = draw(st.integers(w, w + 900))
    k = draw(st.one_of(st.sampled_from([w // 2, w // 4, (3 * w) // 4]), st.integers(1, (3 * w) // 4)))
    ov = {"k": k, "v": draw(st.sampled_from([k, k - w, k / w]))}
    channels = draw(st.integers(1, 2))
    a = draw(gen.signals(channels=st.just(channels), lengths=st.just(n), offset=st.integers(-20, 20).map(lambda i: i * (w - k)), scales=(1.0,)))
    return {"a": a, "w": draw(windows.windows(w, draw(st.sampled_from([1, channels])))), "ov": ov, "ov2": {"k": k, "v": draw(st.sampled_from([k, k - w, k / w]))},
            "other_form": draw(st.booleans()), "pad": draw(st.sampled_from([True, True, False]))}


def check_round(case, ctx):
    a = gen.make(case["a"])
    x = numpy.array(gen.make_array(case["a"]["a"]))
    sr, o = case["a"]["sr"], case["a"]["o"]
    window, values = windows.make_window(case["w"], sr)
    overlap, passed = case["ov"]["k"], case["ov"]["v"]
    w = windows.window_model(case["w"], values, passed)
    n, size = x.shape[1], w.shape[1]
    step = size - overlap
    # the condition for being invertible: every sample of the signal has to be covered by a sample of the window, that is not too small
    if case["pad"]:
        half = size // 2
        starts = [m * step - half for m in range(1 + -(-(n + 2 * half - size) // step))]
        covered = n
    else:
        starts = list(range(0, n - size + 1, step))
        covered = starts[-1] + size
    norm = numpy.zeros((len(w), covered))
    for i in starts:
        for t in range(max(i, 0), min(i + size, covered)):
            norm[:, t] += w[:, t - i] ** 2
    if norm.min() < 1e-3:
        raise Reject()
    pad = case["pad"]
    stft = a.short_time_fourier_transform(window, passed, pad)
    second = w if case["other_form"] else window
    overlap2 = case["ov2"]["v"] if case["other_form"] else passed
    result = stft.inverse_short_time_fourier_transform(second, overlap2, pad)
    what = f"STFT -> ISTFT (window={case['w']['form']} of {size}, overlap={passed}, pad={pad})"
    ctx.nontrivial_if(overlap > 0 and len(starts) > 1)
    ctx.label(case["w"]["form"], f"pad {pad}", "odd" if size % 2 else "even", "other form" if case["other_form"] else "same form", "offset" if o else "no offset")
    check_meta(result, what, cls=sumpf.Signal, sr=sr, offset=o, labels=gen.full_labels(case["a"]))
    require(result.length() >= covered, lambda: f"{what}: only {result.length()} of {covered} samples are left")
    scale = float(numpy.abs(x).max(initial=0.0)) * size
    close(result.channels()[:, :covered], x[:, :covered], what, rtol=1e-9, atol=1e-9 * scale / norm.min() + 1e-300)
    rest = result.channels()[:, covered:]
    close(rest, numpy.zeros(rest.shape), f"{what}: the padding", atol=1e-6 * scale)
    require(result.length() < covered + step + 1, lambda: f"{what}: {result.length() - covered} samples have been appended, the step is {step}")


@st.composite
def model_case(draw):
    w = draw(st.integers(2, 24))
    ov = draw(windows.overlaps(w))
    channels = draw(st.integers(1, 3))
    return {"a": draw(gen.spectrograms(channels=st.just(channels), bins=st.just(w // 2 + 1), lengths=(1, 9), scales=(1.0,))),
            "w": draw(windows.windows(w, draw(st.sampled_from([1, 1, channels])))), "ov": ov, "pad": draw(st.booleans())}


def check_model(case, ctx):
    """the inverse of any spectrogram (also of one, that is no transform of a signal) is the overlap-add of the windowed segments"""
    a = gen.make(case["a"])
    x = numpy.array(gen.make_array(case["a"]["a"]))
    window, values = windows.make_window(case["w"], 1.0)
    overlap, passed = case["ov"]["k"], case["ov"]["v"]
    w = windows.window_model(case["w"], values, passed)
    size = w.shape[1]
    step = size - overlap
    half = size // 2 if case["pad"] else 0
    segments = x.shape[2]
    total = (segments - 1) * step + size
    if total <= 2 * half:
        raise Reject()
    snapshot = gen.Snapshot(a)
    what = f"inverse_short_time_fourier_transform(window={case['w']['form']}, overlap={passed}, pad={case['pad']})"
    result = a.inverse_short_time_fourier_transform(window, passed, case["pad"])
    out = numpy.zeros((len(x), total))
    norm = numpy.zeros((len(x), total))
    t = numpy.arange(size)
    bins = x.shape[1]
    for c in range(len(x)):
        ww = w[c if len(w) > 1 else 0]
        for m in range(segments):
            segment = numpy.zeros(size)
            for k in range(bins):
                z = x[c, k, m]
                phase = 2 * numpy.pi * ((k * t) % size) / size
                if k == 0 or (size % 2 == 0 and k == size // 2):
                    segment += z.real * numpy.cos(phase)
                else:
                    segment += 2 * (z.real * numpy.cos(phase) - z.imag * numpy.sin(phase))
            segment *= ww.sum() / size
            out[c, m * step:m * step + size] += segment * ww
            norm[c, m * step:m * step + size] += ww ** 2
    expected = (out / numpy.where(norm > 1e-10, norm, 1.0))[:, half:total - half]
    norm = norm[:, half:total - half]
    ctx.nontrivial_if(segments > 1 and overlap > 0)
    check_meta(result, what, cls=sumpf.Signal, sr=case["a"]["sr"] * step, offset=case["a"]["o"] * step, labels=gen.full_labels(case["a"]), shape=expected.shape)
    scale = float(numpy.abs(x).max(initial=0.0)) * size
    ok = norm > 1e-6
    close(numpy.where(ok, result.channels(), 0.0), numpy.where(ok, expected, 0.0), what, rtol=1e-7, atol=1e-8 * scale)
    snapshot.check(what)


SUBS = [
    Sub("round", round_case(), check_round, quick=5000, rule="overlapping windows and more than one segment"),
    Sub("long", long_case(), check_round, quick=400, rule="overlapping windows and more than one segment"),
    Sub("model", model_case(), check_model, quick=2500, rule="overlapping windows and more than one segment"),
    defaults.sub("P08", 60),
    large.sub("P08"),
]
ASSUMPTIONS = ["the signal is at least as long as the window and the sum of the overlapping squared windows is at least 0.001 at every sample",
               "offsets are multiples of the step between the segments (otherwise the remainder is only a phase term in the spectrogram)"]
