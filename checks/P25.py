"""Sweeps follow their frequency law and invert by their inverse sweeps"""

import math

from hypothesis import strategies as st
import numpy
import sumpf
from vlib import gen
from vlib.core import Reject, Sub, close, equal, fail, nearly, require, same_array

CLASSES = ("LinearSweep", "InverseLinearSweep", "ExponentialSweep", "InverseExponentialSweep")


def resolve(i, n):
    i = int(round(i * n)) if isinstance(i, float) else i
    return i + n if i < 0 else i


@st.composite
def index_forms(draw, k, n):
    """different ways for specifying the sample index k in a signal with the length n"""
    form = draw(st.sampled_from(["int", "int", "float", "negative", "negative float"]))
    if k > n or form == "int":
        return k
    if form == "float":
        return k / n
    if k < n and form == "negative":
        return k - n
    if 0 < k < n:
        return (k - n) / n
    return k / n


@st.composite
def sweeps(draw, lengths=st.one_of(st.integers(2, 60), st.integers(60, 600), st.integers(8190, 8400)), interval=True, swap=True):
    n = draw(lengths)
    sr = draw(st.sampled_from([48000.0, 44100.0, 1.0, 100.0, 8000.0, 96000, 48000]))
    f = sorted(draw(st.lists(st.integers(1, 1000), min_size=2, max_size=2, unique=True)))
    f = [draw(st.sampled_from([float, float, int]))(v) if sr >= 8000 else v / 2000.0 * sr for v in (x * sr / 2000.0 if sr >= 8000 else x for x in f)]
    if int(f[0]) == int(f[1]) and isinstance(f[0], int) or f[0] >= f[1] or f[0] <= 0:
        f = [sr * 0.01, sr * 0.4]
    if swap and draw(st.integers(0, 9)) == 0:
        f.reverse()
    case = {"f": f, "sr": sr, "n": n, "phase": draw(st.sampled_from([0.0, math.pi / 2, 2.9, -1.0, 10]))}
    if interval and draw(st.integers(0, 2)):
        a = draw(st.integers(0, n - 1))
        b = draw(st.integers(a + 1, n + (n // 4 if draw(st.integers(0, 4)) == 0 else 0)))
        if draw(st.booleans()):     # the majority of practical cases: only a small part of the signal is outside of the interval
            a = draw(st.integers(0, n // 5))
            b = draw(st.integers(max(a + 1, n - n // 5), n))
        # a sweep, that is much longer than its interval, exceeds the range of floating point numbers or the range, where their resolution is useful
        if max(n - b, a) <= 4 * (b - a):
            case["interval"] = [draw(index_forms(a, n)), draw(index_forms(b, n))]
            case["form"] = draw(st.sampled_from(["tuple", "list", "array"]))
    return case


def kwargs(case):
    result = {"start_frequency": case["f"][0], "stop_frequency": case["f"][1], "phase": case["phase"], "sampling_rate": case["sr"], "length": case["n"]}
    if "interval" in case:
        i = case["interval"]
        result["interval"] = {"tuple": tuple, "list": list, "array": lambda x: numpy.array(x) if type(x[0]) is type(x[1]) else tuple(x)}[case["form"]](i)
    return result


def bounds(case):
    return tuple(resolve(i, case["n"]) for i in case.get("interval", (0, 1.0)))


def phase_and_frequency(kind, case, t):
    """the phase and the instantaneous frequency of a regular sweep, where ``t`` is relative to the start of the interval

    :param kind: the name of the sweep class
    :param t: times in sampling intervals
    """
    f0, f1 = case["f"]
    a, b = bounds(case)
    x = t / (b - a)
    duration = (b - a) / case["sr"]
    if "Linear" in kind:
        return 2 * math.pi * duration * (f0 * x + (f1 - f0) * x ** 2 / 2) + case["phase"], f0 + (f1 - f0) * x
    r = math.log(f1 / f0)
    return 2 * math.pi * duration * f0 / r * numpy.expm1(r * x) + case["phase"], f0 * numpy.exp(r * x)


def check_samples(case, ctx):
    f0, f1 = case["f"]
    a, b = bounds(case)
    n, sr = case["n"], case["sr"]
    k = numpy.arange(n, dtype=float)
    for name in CLASSES:
        what = f"{name}({case})"
        sweep = getattr(sumpf, name)(**kwargs(case))
        inverse = name.startswith("Inverse")
        gen.check_meta(sweep, what, cls=getattr(sumpf, name), sr=sr, offset=-a - b if inverse else 0, shape=(1, n))
        if f0 < f1:
            equal(sweep.labels(), ("Inverse sweep" if inverse else "Sweep",), f"{what}: label")
        t = (b - k) if inverse else (k - a)
        phase, frequency = phase_and_frequency(name, case, t)
        expected = numpy.sin(phase)
        scale = 1.0
        if inverse:
            if "Linear" in name:
                expected *= 2.0 / (b - a)
                scale = 2.0 / (b - a)
            else:
                r = math.log(f1 / f0)
                envelope = numpy.exp(r * t / (b - a)) * 2.0 * f0 * r / ((f1 - f0) * (b - a))
                expected *= envelope
                scale = numpy.abs(envelope)
        # the error of the phase is proportional to the phase
        tolerance = 1e-11 * (numpy.abs(phase).max() + 10.0)
        if tolerance < 1e-2:
            close(sweep.channels()[0] / scale, expected / scale, f"{what}: samples", atol=tolerance)
            ctx.nontrivial_if(n > 2)
        # the frequency law
        times = sweep.time_samples() - sweep.offset() / sr
        got = sweep.instantaneous_frequency(times)
        close(got, frequency, f"{what}: instantaneous_frequency of all samples", rtol=1e-9, atol=1e-9 * abs(f0 - f1))
        i = n // 2
        nearly(sweep.instantaneous_frequency(i / sr), got[i], f"{what}: instantaneous_frequency for a scalar", rtol=1e-9, atol=1e-9 * abs(f0 - f1))
        for index, f in ((a, f1 if inverse else f0), (b, f0 if inverse else f1)):
            nearly(sweep.instantaneous_frequency(index / sr), f, f"{what}: frequency at the boundary {index} of the interval", rtol=1e-8, atol=1e-9 * abs(f0 - f1))
        extremes = [sweep.instantaneous_frequency(0.0), sweep.instantaneous_frequency(n / sr)]
        nearly(sweep.minimum_frequency(), min(extremes), f"{what}: minimum_frequency")
        nearly(sweep.maximum_frequency(), max(extremes), f"{what}: maximum_frequency")
    ctx.label("interval" if "interval" in case else "whole", "long" if n > 8192 else "short", "rising" if f0 < f1 else "falling",
              "start > 0" if a else "start 0")


def check_inverse(case, ctx):
    """the convolution of a sweep with its inverse is an impulse with the amplitude one at the time value zero"""
    a, b = bounds(case)
    n, sr = case["n"], case["sr"]
    for kind in ("LinearSweep", "ExponentialSweep"):
        sweep = getattr(sumpf, kind)(**kwargs(case))
        inverse = getattr(sumpf, f"Inverse{kind}")(**kwargs(case))
        what = f"{kind}({case})"
        # the inverse sweep is the time reversed and weighted sweep
        x = sweep.channels()[0]
        y = inverse.channels()[0]
        k = numpy.arange(max(0, a + b - n + 1), min(n, a + b + 1))
        mirrored = x[a + b - k]
        phase, _ = phase_and_frequency(kind, case, numpy.array([-a, n - a], dtype=float))
        tolerance = 1e-11 * (numpy.abs(phase).max() + 10.0)
        weight = 2.0 / (b - a) * numpy.ones(len(k))
        if kind == "ExponentialSweep":
            r = math.log(case["f"][1] / case["f"][0])
            weight *= numpy.exp(r * (b - k) / (b - a)) * case["f"][0] * r / (case["f"][1] - case["f"][0])
        close(y[k] / weight, mirrored, f"{what}: the inverse is the reversed and weighted sweep", atol=10 * tolerance)
        for mode in ("FULL", "SPECTRUM_PADDED"):
            impulse = sweep[:, a:b].convolve(inverse[:, a:b], mode=getattr(sumpf.Signal.convolution_modes, mode))
            z = impulse.channels()[0]
            peak = int(numpy.argmax(numpy.abs(z)))
            equal(peak + impulse.offset(), 0, f"{what}: time of the peak of the {mode} convolution with the inverse")
            close(z[peak], 1.0, f"{what}: amplitude of the peak of the {mode} convolution with the inverse", atol=0.08)
            rest = numpy.abs(numpy.concatenate((z[0:max(0, peak - 10)], z[peak + 11:])))
            require(rest.max() < 0.35, f"{what}: the {mode} convolution with the inverse has another peak of {rest.max()}")
        ctx.nontrivial_if(True)
        ctx.label(f"{kind} {'interval' if 'interval' in case else 'whole'}")


@st.composite
def inverse_cases(draw):
    case = draw(sweeps(lengths=st.one_of(st.integers(512, 2000), st.integers(8192, 9000)), interval=True, swap=False))
    if "interval" in case:
        a, b = bounds(case)
        if b - a < 400 or b > case["n"]:
            del case["interval"]
    # a bandwidth of more than two octaves and a whole lot of periods are required for an impulse
    case["f"] = [case["sr"] * draw(st.integers(4, 40)) / 1000.0, case["sr"] * draw(st.integers(300, 470)) / 1000.0]
    return case


@st.composite
def harmonic_cases(draw):
    case = draw(sweeps(lengths=st.integers(40, 400), interval=True, swap=False))
    if "interval" in case and bounds(case)[1] > case["n"]:
        del case["interval"]
    a, b = bounds(case)
    f0, f1 = case["f"]
    rate = (b - a) / math.log(f1 / f0)      # the delay for a factor of e in samples
    circular = draw(st.booleans())
    case["harmonic"] = draw(st.one_of(st.integers(1, 4), st.integers(1, 23)))
    shift = math.ceil(math.log(case["harmonic"]) * rate)
    tail = draw(st.integers(1, 50))
    case["ir"] = {"n": shift + tail + draw(st.integers(0, 30)), "offset": 0, "seed": draw(gen.seed), "c": draw(st.integers(1, 3)), "sr": case["sr"]}
    if not circular:
        case["ir"]["offset"] = -(shift + draw(st.integers(0, 20)))
        case["ir"]["n"] = -case["ir"]["offset"] + tail
    elif case["harmonic"] > 1 and draw(st.integers(0, 3)) == 0:
        # the result of a circular convolution, that has been shifted, so that the harmonic impulse response might be split
        case["ir"]["offset"] = -draw(st.one_of(st.integers(0, shift), st.sampled_from([0, 1, 2]), st.integers(0, max(1, math.floor(math.log(max(1, case["harmonic"] - 1)) * rate)))))
    if case["ir"]["n"] > 4000:
        case["harmonic"] = 1
        case["ir"]["n"] = tail - case["ir"]["offset"] if case["ir"]["offset"] > -1000 else tail
        case["ir"]["offset"] = max(case["ir"]["offset"], -case["ir"]["n"] + 1)
    case["length"] = draw(st.one_of(st.none(), st.integers(1, 12), st.integers(1, 400)))
    case["inverse"] = draw(st.booleans())
    return case


def counting(n):
    if n % 100 in (11, 12, 13):
        return f"{n}th"
    return f"{n}{ {1: 'st', 2: 'nd', 3: 'rd'}.get(n % 10, 'th')}"


def check_harmonic(case, ctx):
    a, b = bounds(case)
    f0, f1 = case["f"]
    sr = case["sr"]
    r = case["ir"]
    rng = numpy.random.Generator(numpy.random.PCG64(r["seed"]))
    data = rng.normal(size=(r["c"], r["n"]))
    response = sumpf.Signal(channels=data.copy(), sampling_rate=sr, offset=r["offset"], labels=[f"L{i}" for i in range(r["c"])])
    sweep = getattr(sumpf, "InverseExponentialSweep" if case["inverse"] else "ExponentialSweep")(**kwargs(case))
    h = case["harmonic"]
    what = f"{case}"
    delays = [math.log(x) * (b - a) / math.log(f1 / f0) if x > 1 else 0.0 for x in (h, max(1, h - 1))]   # in samples
    if any(abs(d - round(d)) < 1e-6 and d != 0.0 for d in delays):
        return  # the rounding of the delay is ambiguous
    result = sweep.harmonic_impulse_response(response, h) if case["length"] is None else sweep.harmonic_impulse_response(response, h, case["length"])
    same_array(response.channels(), data, f"{what}: the impulse response after cutting out the harmonic")
    start = -math.ceil(delays[0])
    if h == 1:
        part = data[:, -r["offset"]:]
    else:
        index = numpy.arange(start, -math.floor(delays[1])) - r["offset"]
        if index.size and index[0] < 0 <= index[-1]:
            # if only some of the samples have been moved to the back, the others may be cropped
            ctx.label("split")
            if case["length"] is None and result.length() == -int(index[0]):
                index = index[index < 0]
            elif case["length"] is not None:
                return
        part = data[:, index]       # negative indices are non-causal samples, that have been moved to the back by a circular convolution
    advance = -start - delays[0]    # the time in samples by which the harmonic impulse response starts after the first sample of the part
    length = case["length"]
    if length is not None and part.shape[1] < length:
        part = numpy.concatenate((part, numpy.zeros((r["c"], length - part.shape[1]))), axis=1)
    if h > 1 and part.shape[1]:
        m = part.shape[1]
        spectrum = numpy.fft.rfft(part) * numpy.exp(2j * numpy.pi * numpy.arange(m // 2 + 1) / m * advance)
        part = numpy.fft.irfft(spectrum, n=m)
    if length is not None:
        part = part[:, 0:length]
    gen.check_meta(result, what, cls=sumpf.Signal, sr=sr, offset=0, labels=tuple(f"L{i} ({counting(h)} harmonic)" for i in range(r["c"])), shape=part.shape)
    close(result.channels(), part, f"{what}: samples", atol=1e-9)
    ctx.nontrivial_if(h > 1 and part.shape[1] > 1)
    ctx.label(f"harmonic {h if h < 4 else '>3'}", "circular" if r["offset"] == 0 else "padded", "length" if length else "no length", "odd" if part.shape[1] % 2 else "even")


DEFAULTS = {"start_frequency": 20.0, "stop_frequency": 20000.0, "phase": 0.0, "interval": (0, 1.0), "sampling_rate": 48000.0, "length": 2 ** 16}


@st.composite
def default_cases(draw):
    case = draw(sweeps(lengths=st.integers(100, 600), swap=False))
    return {"class": draw(st.sampled_from(["LinearSweep", "ExponentialSweep"])), "case": case, "omit": draw(st.lists(st.sampled_from(["start_frequency", "stop_frequency", "phase", "interval", "sampling_rate"]), unique=True, max_size=5)),
            "full": draw(st.integers(0, 19)) == 0}


def check_defaults(case, ctx):
    """the documented default values are the same for the sweeps and their inverses"""
    arguments = {k: v for k, v in kwargs(case["case"]).items() if k not in case["omit"] and not (k == "length" and case["full"])}
    complete = {**DEFAULTS, **arguments}
    if not complete["start_frequency"] < complete["stop_frequency"]:
        return
    for prefix in ("", "Inverse"):
        try:
            b = getattr(sumpf, prefix + case["class"])(**complete)
            minimum = b.minimum_frequency()
        except OverflowError:   # the part before or after the interval exceeds the range of floating point numbers
            raise Reject() from None
        a = getattr(sumpf, prefix + case["class"])(**arguments)
        gen.check_meta(a, f"{prefix}{case['class']}(**{arguments})", cls=type(b), sr=b.sampling_rate(), offset=b.offset(), labels=b.labels(), shape=b.shape())
        close(a.channels(), b.channels(), f"{prefix}{case['class']}(**{arguments}) compared to the one, for which the default values are specified", rtol=1e-12)
        nearly(a.minimum_frequency(), minimum, "minimum_frequency")
    ctx.nontrivial_if(bool(case["omit"]))


SUBS = [
    Sub("samples", sweeps(), check_samples, quick=2500, rule="more than two samples"),
    Sub("inverse", inverse_cases(), check_inverse, quick=400, rule="always"),
    Sub("harmonic", harmonic_cases(), check_harmonic, quick=2500, rule="a harmonic of order > 1 with more than one sample"),
    Sub("defaults", default_cases(), check_defaults, quick=400, rule="arguments are omitted"),
]
