"""Every operation treats channels independently"""

import operator

from hypothesis import strategies as st
import numpy
import sumpf
from vlib import filters, gen
from vlib.core import Reject, Sub, close, equal, require

FREQUENCIES = numpy.array([0.0, 0.7, 13.0, 250.0, 4999.0, 20000.0])
NOISE = ("normal", "huge", "zero", "nan", "inf", "constant")


# ---------------------------------------------------------------------------
# selecting channels
# ---------------------------------------------------------------------------


def rebuild(x, channels, labels):
    if isinstance(x, sumpf.Signal):
        return sumpf.Signal(channels=channels, sampling_rate=x.sampling_rate(), offset=x.offset(), labels=labels)
    if isinstance(x, sumpf.Spectrum):
        return sumpf.Spectrum(channels=channels, resolution=x.resolution(), labels=labels)
    if isinstance(x, sumpf.Spectrogram):
        return sumpf.Spectrogram(channels=channels, resolution=x.resolution(), sampling_rate=x.sampling_rate(), offset=x.offset(), labels=labels)
    return sumpf.Filter(transfer_functions=channels, labels=labels)


def data_of(x):
    return list(x.transfer_functions()) if isinstance(x, sumpf.Filter) else x.channels()


def select(x, indices):
    d = data_of(x)
    if len(d) == 1:
        return x
    channels = tuple(d[i] for i in indices) if isinstance(x, sumpf.Filter) else numpy.array([d[i] for i in indices])
    return rebuild(x, channels, tuple(x.labels()[i] for i in indices))


def disturb(x, keep, noise, seed):
    """replaces all channels except for the given one"""
    d = data_of(x)
    if len(d) == 1:
        return x
    rng = numpy.random.default_rng(seed)
    labels = tuple(l if i == keep else f"noise {i}" for i, l in enumerate(x.labels()))
    if isinstance(x, sumpf.Filter):
        return rebuild(x, tuple(t if i == keep else sumpf.Filter.Constant(float(rng.normal())) * sumpf.Filter.Exp(1e-4 * float(rng.normal())) for i, t in enumerate(d)), labels)
    result = numpy.array(d)
    for i in range(len(d)):
        if i != keep:
            x1 = rng.normal(size=d.shape[1:])
            if noise == "huge":
                x1 = x1 * 1e100
            elif noise == "zero":
                x1 = x1 * 0.0
            elif noise == "nan":
                x1[..., ::2] = numpy.nan
            elif noise == "inf":
                x1[..., ::3] = numpy.inf
            elif noise == "constant":
                x1 = x1 * 0.0 + 7.0
            result[i] = x1
    return rebuild(x, result, labels)


def channel_results(result):
    """returns a list with the data of each channel, the list of labels and the meta data"""
    if isinstance(result, sumpf.Filter):
        with numpy.errstate(all="ignore"):
            return list(result(FREQUENCIES)), list(result.labels()), ("Filter",)
    if isinstance(result, sumpf.Signal):
        return list(result.channels()), list(result.labels()), ("Signal", result.sampling_rate(), result.offset(), result.length())
    if isinstance(result, sumpf.Spectrum):
        return list(result.channels()), list(result.labels()), ("Spectrum", result.resolution(), result.length())
    if isinstance(result, sumpf.Spectrogram):
        return list(result.channels()), list(result.labels()), ("Spectrogram", result.resolution(), result.sampling_rate(), result.offset(), result.shape()[1:])
    return list(result), None, ("values",)


# ---------------------------------------------------------------------------
# the operations
# ---------------------------------------------------------------------------

# name: (kinds of the operands, function(x, y, args))
ARITHMETIC = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv}
MORE = {"pow": operator.pow}


def _slice(a):
    return slice(a["start"], a["stop"], a["step"])


UNARY = {
    "Signal": {
        "abs": lambda x, a: abs(x), "neg": lambda x, a: -x, "reversed": lambda x, a: reversed(x), "invert": lambda x, a: ~x,
        "plus number": lambda x, a: x + a["v"], "number minus": lambda x, a: a["v"] - x, "times number": lambda x, a: x * a["v"], "over": lambda x, a: a["v"] / x,
        "mod number": lambda x, a: x % a["p"], "square": lambda x, a: x ** 2,
        "plus array": lambda x, a: x + numpy.linspace(-1.0, a["v"], x.length()), "array times": lambda x, a: numpy.linspace(-1.0, a["v"], x.length()) * x,
        "slice": lambda x, a: x[:, _slice(a)], "pad": lambda x, a: x.pad(a["n"], a["v"]),
        "shift": lambda x, a: x.shift(a["i"], sumpf.Signal.shift_modes.OFFSET), "shift crop": lambda x, a: x.shift(a["i"], sumpf.Signal.shift_modes.CROP),
        "shift pad": lambda x, a: x.shift(a["i"], sumpf.Signal.shift_modes.PAD), "shift cycle": lambda x, a: x.shift(a["i"], sumpf.Signal.shift_modes.CYCLE),
        "fourier": lambda x, a: x.fourier_transform(), "fourier window": lambda x, a: x.fourier_transform(window=2 * a["n"] + 2, overlap=0.5, pad=a["b"] or x.length() < 2 * a["n"] + 2),
        "stft": lambda x, a: x.short_time_fourier_transform(window=_window(x, a), overlap=0.5, pad=True),
        "stft signal": lambda x, a: x.short_time_fourier_transform(window=sumpf.HannWindow(length=_window(x, a), sampling_rate=x.sampling_rate()), overlap=_window(x, a) // 2, pad=True),
        "level": lambda x, a: x.level(), "level_vs_time": lambda x, a: x.level_vs_time(integration_time=(a["n"] + 1.5 * a["b"]) / x.sampling_rate(), pad=a["b2"]),
        "mean": lambda x, a: x.mean(), "variance": lambda x, a: x.variance(), "standard deviation": lambda x, a: x.standard_deviation(),
        "skewness": lambda x, a: x.skewness(), "kurtosis": lambda x, a: x.kurtosis(),
        "energy decay": lambda x, a: sumpf.EnergyDecayCurve(x), "reverberation time": lambda x, a: sumpf.EnergyDecayCurve(x).reverberation_time(0, x.length() // 2 + 1),
        "convolve array": lambda x, a: x.convolve(numpy.linspace(-1.0, a["v"], a["n"] + 1), _mode(a)), "correlate array": lambda x, a: x.correlate(numpy.linspace(-1.0, a["v"], a["n"] + 1), _mode(a)),
        "harmonic": lambda x, a: sumpf.ExponentialSweep(start_frequency=0.001 * x.sampling_rate(), stop_frequency=0.4 * x.sampling_rate(), sampling_rate=x.sampling_rate(), length=max(2, x.length())).harmonic_impulse_response(x, a["h"]),
        "fade": lambda x, a: sumpf.Fade(rise_interval=(0, x.length() // 2), fall_interval=(x.length() // 2, x.length()), sampling_rate=x.sampling_rate(), length=x.length()) * x,
        "lowpass": lambda x, a: sumpf.ButterworthFilter(cutoff_frequency=0.1 * x.sampling_rate(), order=a["h"], highpass=a["b"]) * x,
        "concatenate": lambda x, a: sumpf.Concatenate([x, x * 0.5]).output(),
    },
    "Spectrum": {
        "abs": lambda x, a: abs(x), "neg": lambda x, a: -x, "invert": lambda x, a: ~x, "conjugate": lambda x, a: x.conjugate(),
        "plus number": lambda x, a: x + a["v"], "number minus": lambda x, a: a["v"] - x, "times number": lambda x, a: x * a["v"], "over": lambda x, a: a["v"] / x, "square": lambda x, a: x ** 2,
        "plus array": lambda x, a: x + numpy.linspace(-1.0, a["v"], x.length()), "array times": lambda x, a: numpy.linspace(-1.0, a["v"], x.length()) * x,
        "slice": lambda x, a: x[:, a["start0"]:None], "pad": lambda x, a: x.pad(a["n"], a["v"]),
        "inverse fourier": lambda x, a: x.inverse_fourier_transform(), "level": lambda x, a: x.level(),
        "magnitude": lambda x, a: x.magnitude(), "phase": lambda x, a: x.phase(), "real": lambda x, a: x.real(), "imaginary": lambda x, a: x.imaginary(),
        "lowpass": lambda x, a: sumpf.ButterworthFilter(cutoff_frequency=3 * x.resolution(), order=a["h"], highpass=a["b"]) * x,
    },
    "Spectrogram": {
        "abs": lambda x, a: abs(x), "neg": lambda x, a: -x, "conjugate": lambda x, a: x.conjugate(),
        "plus number": lambda x, a: x + a["v"], "number minus": lambda x, a: a["v"] - x, "times number": lambda x, a: x * a["v"], "over": lambda x, a: a["v"] / x, "square": lambda x, a: x ** 2,
        "slice": lambda x, a: x[:, :, _slice(a)], "slice frequency": lambda x, a: x[:, a["start0"]:None], "pad": lambda x, a: x.pad(a["n"], a["v"]),
        "shift": lambda x, a: x.shift(a["i"], sumpf.Spectrogram.shift_modes.OFFSET), "shift crop": lambda x, a: x.shift(a["i"], sumpf.Spectrogram.shift_modes.CROP),
        "shift pad": lambda x, a: x.shift(a["i"], sumpf.Spectrogram.shift_modes.PAD), "shift cycle": lambda x, a: x.shift(a["i"], sumpf.Spectrogram.shift_modes.CYCLE),
        "magnitude": lambda x, a: x.magnitude(), "phase": lambda x, a: x.phase(), "real": lambda x, a: x.real(), "imaginary": lambda x, a: x.imaginary(),
        "inverse stft": lambda x, a: x.inverse_short_time_fourier_transform(window=2 * (x.number_of_frequencies() - 1), overlap=0.5),
        "lowpass": lambda x, a: sumpf.ButterworthFilter(cutoff_frequency=3 * x.resolution(), order=a["h"], highpass=a["b"]) * x,
        "concatenate": lambda x, a: sumpf.Concatenate([x, x * 0.5]).output(),
    },
    "Filter": {
        "abs": lambda x, a: abs(x), "neg": lambda x, a: -x,
        "plus number": lambda x, a: x + a["v"], "number minus": lambda x, a: a["v"] - x, "times number": lambda x, a: x * a["p"], "over number": lambda x, a: x / a["p"],
        "call": lambda x, a: x(FREQUENCIES), "spectrum": lambda x, a: x.spectrum(resolution=a["p"] * 11.0, length=a["n"] + 1),
    },
}


def _mode(a):
    return list(sumpf.Signal.convolution_modes)[a["mode"] % len(sumpf.Signal.convolution_modes)]


def _window(x, a):
    if x.length() < 2:
        raise Reject()
    return min(2 * a["n"] + 2, x.length() // 2 * 2)


arguments = st.fixed_dictionaries({
    "v": st.sampled_from([1.5, -2.0, 3, 0.25]), "p": st.sampled_from([0.5, 2.0, 3, 1.0]), "n": st.integers(0, 9), "i": st.integers(-12, 12),
    "b": st.booleans(), "b2": st.booleans(), "h": st.integers(1, 4), "mode": st.integers(0, 20),
    "start": st.one_of(st.none(), st.integers(-12, 12)), "stop": st.one_of(st.none(), st.integers(-12, 12)), "step": st.sampled_from([None, None, 1, 2]), "start0": st.integers(0, 3)})


@st.composite
def tidy_filters(draw, n):
    leaves = st.one_of(filters.polynomial(), filters.exponential(), filters.constant(), filters.bands_term())
    return {"t": "Filter", "c": draw(st.lists(leaves, min_size=n, max_size=n)), "l": draw(gen.labels(n))}


def _layout():
    return {"layouts": ("C", "C", "F", "strided")}


@st.composite
def operand(draw, kind, n, like=None):
    """:param like: an optional operand of the same kind, that determines the sampling"""
    if kind == "Filter":
        return draw(tidy_filters(n))
    kinds = ("normal", "normal", "uniform", "decay", "positive")
    if kind == "Signal":
        x = draw(gen.signals(channels=st.just(n), lengths=gen.sizes(1, 24), kinds=kinds, explicit=0, **_layout()))
        if like:
            x["sr"] = like["sr"]
            if draw(st.booleans()):
                x["o"] = like["o"]
                x["a"]["shape"][1] = like["a"]["shape"][-1]
    elif kind == "Spectrum":
        x = draw(gen.spectrums(channels=st.just(n), lengths=gen.sizes(1, 16), kinds=kinds, explicit=0, **_layout()))
        if like:
            x["r"] = like["r"]
            x["a"]["shape"][1] = like["a"]["shape"][1]      # different lengths are rejected
    else:
        x = draw(gen.spectrograms(channels=st.just(n), bins=(2, 6), lengths=(1, 8), kinds=kinds, explicit=0, **_layout()))
        if like:
            x["r"] = like["r"]
            x["sr"] = like["sr"]
            if draw(st.booleans()):
                x["o"] = like["o"]
                x["a"]["shape"][1:] = like["a"]["shape"][1:]
    return x


@st.composite
def unary_cases(draw):
    kind = draw(st.sampled_from(["Signal", "Signal", "Spectrum", "Spectrogram", "Filter"]))
    n = draw(st.integers(2, 4))
    return {"op": draw(st.sampled_from(sorted(UNARY[kind]))), "x": draw(operand(kind, n)), "a": draw(arguments), "k": draw(st.integers(0, n - 1)),
            "perm": draw(st.permutations(list(range(n)))), "noise": draw(st.sampled_from(NOISE)), "seed": draw(st.integers(0, 10 ** 6))}


def _make(case):
    return filters.make(case) if case["t"] == "Filter" else gen.make(case)


def _compare(op, actual, expected, what, condition=1.0):
    (a, la, ma), (e, le, me) = actual, expected
    equal(ma, me, f"{what}: the kind of the result and its sampling rate, offset, resolution, and number of samples")
    if le is not None and op != "concatenate":      # the labels of concatenations are numbered
        equal(la, le, f"{what}: label")
    finite = numpy.abs(e)[numpy.isfinite(e)]
    with numpy.errstate(all="ignore"):
        close(a, e, what, rtol=1e-9 * condition, scale=float(finite.max()) if finite.size else 0.0, atol=1e-290)


def _one(results, k):
    data, labels, meta = results
    return numpy.asarray(data[k]), None if labels is None else labels[k], meta


def _ill_conditioned(x, op):
    """the results of some operations amplify rounding errors arbitrarily"""
    if op in ("skewness", "kurtosis", "variance", "standard deviation", "reverberation time"):
        return x.length() < 5
    if op == "invert" and isinstance(x, sumpf.Signal):
        s = numpy.abs(numpy.fft.rfft(x.channels(), axis=1))
        return (s.min(axis=1) < 1e-4 * s.max(axis=1)).any()
    return False


def check_unary(case, ctx):
    x = _make(case["x"])
    kind, op, a = case["x"]["t"], case["op"], case["a"]
    function = UNARY[kind][op]
    if kind == "Spectrogram" and op == "inverse stft" and x.length() < 2:
        raise Reject()
    if kind == "Signal" and op in ("invert", "lowpass") and x.length() < 4:
        raise Reject()
    if _ill_conditioned(x, op):
        raise Reject()
    try:
        result = channel_results(function(x, a))
    except ZeroDivisionError as e:
        if kind == "Filter":
            raise Reject() from e
        raise
    what = f"{op} of a {kind} with {len(x)} channels ({a})"
    equal(len(result[0]), len(x), f"{what}: number of channels")
    # process the channels separately
    for k in range(len(x)):
        separate = channel_results(function(select(x, [k]), a))
        equal(len(separate[0]), 1, f"{what}: number of channels for a single channel")
        _compare(op, _one(result, k), _one(separate, 0), f"{what}: channel {k} compared to processing that channel separately")
    # permute the channels
    permuted = channel_results(function(select(x, case["perm"]), a))
    for i, k in enumerate(case["perm"]):
        _compare(op, _one(permuted, i), _one(result, k), f"{what}: channel {i} after permuting the channels with {case['perm']}")
    # change the other channels
    k = case["k"]
    disturbed = channel_results(function(disturb(x, k, case["noise"], case["seed"]), a))
    _compare(op, _one(disturbed, k), _one(result, k), f"{what}: channel {k} after replacing the other channels with {case['noise']}")
    ctx.nontrivial_if(numpy.size(result[0][0]) > 0)
    ctx.label(f"{kind} {op}", case["noise"])


# ---------------------------------------------------------------------------
# operations with two operands
# ---------------------------------------------------------------------------

BINARY = (
    [(("Signal", "Signal"), n, f) for n, f in ARITHMETIC.items()] + [(("Signal", "Signal"), "mod", operator.mod)]
    + [(("Spectrum", "Spectrum"), n, f) for n, f in ARITHMETIC.items()]
    + [(("Spectrogram", "Spectrogram"), n, f) for n, f in ARITHMETIC.items()]
    + [(p, n, f) for n, f in ARITHMETIC.items() for p in (("Spectrogram", "Signal"), ("Signal", "Spectrogram"), ("Spectrogram", "Spectrum"), ("Spectrum", "Spectrogram"))]
    + [(("Filter", "Filter"), n, f) for n, f in ARITHMETIC.items()]
    + [(("Filter", k), "mul", operator.mul) for k in ("Signal", "Spectrum", "Spectrogram")] + [((k, "Filter"), "mul", operator.mul) for k in ("Signal", "Spectrum", "Spectrogram")]
    + [(("Signal", "Signal"), f"convolve {m.name}", lambda x, y, m=m: x.convolve(y, m)) for m in sumpf.Signal.convolution_modes]
    + [(("Signal", "Signal"), f"correlate {m.name}", lambda x, y, m=m: x.correlate(y, m)) for m in sumpf.Signal.convolution_modes]
)


@st.composite
def binary_cases(draw, i=None):
    i = draw(st.integers(0, len(BINARY) - 1)) if i is None else i
    (left, right), name, _ = BINARY[i]
    n = draw(st.integers(2, 4))
    form = draw(st.sampled_from(["both", "both", "one left", "one right", "more left", "more right"]))
    if ("Filter" in (left, right) or name.startswith(("convolve", "correlate"))) and form.startswith("more"):      # filters and convolutions require matching numbers of channels
        form = "both"
    nl = {"one left": 1, "more right": draw(st.integers(2, n))}.get(form, n)
    nr = {"one right": 1, "more left": draw(st.integers(2, n))}.get(form, n)
    x = draw(operand(left, nl))
    if left == right:
        y = draw(operand(right, nr, like=x))
    else:
        y = draw(operand(right, nr))
        for key in ("r", "sr"):
            if key in x and key in y:
                y[key] = x[key]
        if "o" in x and "o" in y and draw(st.booleans()):
            y["o"] = x["o"]
            if draw(st.booleans()):
                y["a"]["shape"][-1] = x["a"]["shape"][-1]
        if {left, right} == {"Spectrum", "Spectrogram"}:    # different lengths are rejected
            y["a"]["shape"][1] = x["a"]["shape"][1]
    n = max(nl, nr)
    return {"i": i, "name": f"{left} {name} {right}", "x": x, "y": y, "k": draw(st.integers(0, n - 1)), "perm": draw(st.permutations(list(range(min(c for c in (nl, nr) if c > 1))))),
            "noise": draw(st.sampled_from(NOISE)), "seed": draw(st.integers(0, 10 ** 6)), "side": draw(st.sampled_from(["left", "right", "both"]))}


def check_binary(case, ctx):
    _, name, function = BINARY[case["i"]]
    x, y = _make(case["x"]), _make(case["y"])
    for f, s in ((x, y), (y, x)):
        if isinstance(f, sumpf.Filter) and isinstance(s, sumpf.Signal) and s.length() < 4:
            raise Reject()
    what = f"{case['name']} with {len(x)} and {len(y)} channels"
    try:
        result = channel_results(function(x, y))
    except ZeroDivisionError as e:
        if isinstance(x, sumpf.Filter) and isinstance(y, sumpf.Filter):
            raise Reject() from e
        raise
    n = max(len(x), len(y))
    equal(len(result[0]), n, f"{what}: number of channels")
    common = min(c for c in (len(x), len(y)) if c > 1)
    # process the channels separately
    for k in range(common):
        separate = channel_results(function(select(x, [k]), select(y, [k])))
        equal(len(separate[0]), 1, f"{what}: number of channels for single channels")
        _compare(name, _one(result, k), _one(separate, 0), f"{what}: channel {k} compared to processing that channel separately")
    # permute the channels
    perm = list(case["perm"])[0:common]
    full = lambda o: perm + list(range(common, len(o)))     # noqa: E731
    permuted = channel_results(function(select(x, full(x)), select(y, full(y))))
    for i, k in enumerate(perm + list(range(common, n))):
        _compare(name, _one(permuted, i), _one(result, k), f"{what}: channel {i} after permuting the channels with {perm}")
    # change the other channels
    k = case["k"]
    x1 = disturb(x, k, case["noise"], case["seed"]) if case["side"] != "right" else x
    y1 = disturb(y, k, case["noise"], case["seed"] + 1) if case["side"] != "left" else y
    try:
        disturbed = channel_results(function(x1, y1))
    except ZeroDivisionError as e:
        if isinstance(x, sumpf.Filter) and isinstance(y, sumpf.Filter):
            raise Reject() from e
        raise
    _compare(name, _one(disturbed, k), _one(result, k), f"{what}: channel {k} after replacing the other channels with {case['noise']}")
    require(len(disturbed[0]) == n, what)
    ctx.nontrivial_if(numpy.size(result[0][0]) > 0)
    ctx.label(case["name"], f"{len(x) if len(x) == 1 else 'n'}:{len(y) if len(y) == 1 else 'n'}", case["noise"])


SUBS = [
    Sub("unary", unary_cases(), check_unary, quick=8000, rule="objects with at least two channels and non-empty results"),
    Sub("binary", binary_cases(), check_binary, quick=4000, rule="at least one operand with at least two channels and non-empty results"),
]
