"""Generators produce the signals they specify"""

import math
import random

from hypothesis import strategies as st
import numpy
import scipy.signal
import scipy.stats
import sumpf
from vlib import defaults, gen
from vlib.core import Sub, close, equal, fail, nearly, require, same_array

# ---------------------------------------------------------------------------
# waves and constants
# ---------------------------------------------------------------------------


@st.composite
def wave_cases(draw):
    sr = draw(gen.sampling_rate)
    n = draw(st.one_of(st.integers(0, 3), st.integers(0, 100), st.integers(0, 3000)))
    f = draw(st.one_of(st.integers(1, 50).map(lambda k: k * sr / 100.0), st.floats(0.001, 2.0).map(lambda x: x * sr), st.just(0.0), st.just(1000)))
    return {"class": draw(st.sampled_from(["SineWave", "SquareWave"])), "f": f, "sr": sr, "n": n,
            "phase": draw(st.one_of(st.sampled_from([0.0, math.pi / 2, -math.pi, 1, 100.0]), st.floats(-10.0, 10.0)))}


def check_wave(case, ctx):
    f, sr, n = case["f"], case["sr"], case["n"]
    wave = getattr(sumpf, case["class"])(frequency=f, phase=case["phase"], sampling_rate=sr, length=n)
    what = f"{case}"
    sine = case["class"] == "SineWave"
    gen.check_meta(wave, what, cls=getattr(sumpf, case["class"]), sr=sr, offset=0, labels=("Sine" if sine else "Square wave",), shape=(1, n))
    nearly(wave.periods(), f * n / sr, f"{what}: periods", rtol=1e-9)
    # the argument's integer number of periods is removed exactly, before it is multiplied with pi
    arguments = 2.0 * math.pi * numpy.mod(numpy.arange(n) * (f / sr), 1.0) + case["phase"]
    expected = numpy.sin(arguments)
    tolerance = 1e-14 * (2.0 * math.pi * f * n / sr + abs(case["phase"])) + 1e-14
    x = wave.channels()[0]
    if sine:
        close(x, expected, f"{what}: samples", atol=4 * tolerance)
    else:
        require(numpy.isin(x, (-1.0, 0.0, 1.0)).all(), f"{what}: a square wave with the values {set(x.tolist())}")
        sure = numpy.abs(expected) > 4 * tolerance
        same_array(x[sure], numpy.sign(expected[sure]), f"{what}: samples apart from the zero crossings")
        require((x[~sure] == 0).sum() <= (~sure).sum(), what)
    ctx.nontrivial_if(n > 2 and f != 0)
    ctx.label(case["class"])


@st.composite
def constant_cases(draw):
    name = draw(st.sampled_from(["ConstantSignal", "ConstantSpectrum", "ConstantSpectrogram"]))
    case = {"class": name, "n": draw(st.integers(0, 40)), "re": draw(st.one_of(st.integers(-5, 5), st.floats(-1e6, 1e6), st.sampled_from([1e300, -1e-300])))}
    if name != "ConstantSignal":
        case["im"] = draw(st.one_of(st.none(), st.floats(-100.0, 100.0)))
        case["res"] = draw(gen.resolution)
    if name != "ConstantSpectrum":
        case["sr"] = draw(gen.sampling_rate)
    if name == "ConstantSpectrogram":
        case["bins"] = draw(st.integers(0, 12))
    return case


def check_constant(case, ctx):
    name = case["class"]
    value = case["re"] if case.get("im") is None else complex(case["re"], case["im"])
    arguments = {"value": value, "length": case["n"]}
    if "sr" in case:
        arguments["sampling_rate"] = case["sr"]
    if "res" in case:
        arguments["resolution"] = case["res"]
    shape = (1, case["n"])
    if "bins" in case:
        arguments["number_of_frequencies"] = case["bins"]
        shape = (1, case["bins"], case["n"])
    data = getattr(sumpf, name)(**arguments)
    what = f"{case}"
    gen.check_meta(data, what, cls=getattr(sumpf, name), sr=case.get("sr"), res=case.get("res"), offset=None if name == "ConstantSpectrum" else 0,
                   labels=("Constant",), shape=shape)
    same_array(data.channels(), numpy.full(shape, value), f"{what}: data")
    ctx.nontrivial_if(data.channels().size > 0 and value != 0)
    ctx.label(name)


# ---------------------------------------------------------------------------
# fades
# ---------------------------------------------------------------------------

FUNCTIONS = {"blackman": numpy.blackman, "hanning": numpy.hanning, "bartlett": numpy.bartlett, "hamming": numpy.hamming,
             "ones": numpy.ones, "kaiser": lambda n: numpy.kaiser(n, 5.0), "parzen": scipy.signal.windows.parzen,
             "asymmetric": lambda n: numpy.arange(1.0, n + 1.0)}


def resolve(i, n):
    i = int(round(i * n)) if isinstance(i, float) else i
    return i + n if i < 0 else i


@st.composite
def index_forms(draw, k, n):
    form = draw(st.sampled_from(["int", "int", "float", "negative", "negative float"]))
    if form == "int" or n == 0:
        return k
    if form == "negative" and k < n:
        return k - n
    if form == "negative float" and 0 < k < n:
        return (k - n) / n
    return k / n


@st.composite
def fade_cases(draw):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 60)))
    case = {"n": n, "sr": draw(gen.sampling_rate), "function": draw(st.sampled_from(sorted(FUNCTIONS)))}
    for name in ("rise", "fall"):
        form = draw(st.sampled_from(["none", "interval", "interval", "interval", "scalar"]))
        a, b = sorted((draw(st.integers(0, n)), draw(st.integers(0, n))))
        if draw(st.integers(0, 3)) == 0 and name == "fall" and isinstance(case.get("rise"), list):   # the same length for both fades or adjacent fades
            c, d = (resolve(i, n) for i in case["rise"])
            options = [(x, x + d - c) for x in range(0, n + 1 - (d - c))] + [(d, n), (0, c)]
            a, b = draw(st.sampled_from(options))
        if form == "scalar":
            case[name] = draw(index_forms(a, n))
        elif form == "interval":
            case[name] = [draw(index_forms(a, n)), draw(index_forms(b, n))]
    case["container"] = draw(st.sampled_from(["tuple", "list"]))
    case["order"] = draw(st.booleans())
    return case


def check_fade(case, ctx):
    n = case["n"]
    function = FUNCTIONS[case["function"]]
    intervals = {}
    arguments = {"function": function, "sampling_rate": case["sr"], "length": n}
    for name in ("rise", "fall"):
        given = case.get(name)
        if isinstance(given, list):
            intervals[name] = tuple(resolve(i, n) for i in given)
            arguments[f"{name}_interval"] = tuple(given) if case["container"] == "tuple" else given
        elif given is not None:
            intervals[name] = (0, resolve(given, n)) if name == "rise" else (resolve(given, n), n)
            arguments[f"{name}_interval"] = given
    what = f"{case}"
    rise = fall = numpy.ones(n)
    if "rise" in intervals:
        a, b = intervals["rise"]
        rise = numpy.concatenate((numpy.zeros(a), numpy.asarray(function(2 * (b - a)))[0:b - a], numpy.ones(n - b)))
    if "fall" in intervals:
        c, d = intervals["fall"]
        fall = numpy.concatenate((numpy.ones(c), numpy.asarray(function(2 * (d - c)))[d - c:], numpy.zeros(n - d)))
    if len(intervals) < 2:
        expected = rise * fall
        label = {(): "Fade", ("rise",): "Fade in", ("fall",): "Fade out"}[tuple(intervals)]
    else:
        if a == c:
            return  # it's ambiguous, whether the fade in or the fade out comes first
        if a < c:
            expected = rise * fall
            label = "Fade in-out"
        else:
            expected = rise + fall
            label = "Fade out-in"
    fade = sumpf.Fade(**arguments)
    gen.check_meta(fade, what, cls=sumpf.Fade, sr=case["sr"], offset=0, labels=(label,), shape=(1, n))
    close(fade.channels()[0], expected, f"{what}: samples with the resolved intervals {intervals}", rtol=1e-12, atol=1e-12)
    ctx.nontrivial_if(len(intervals) == 2 or any(b - a > 1 for a, b in intervals.values()))
    ctx.label(label, *(["overlapping"] if len(intervals) == 2 and max(a, c) < min(b, d) else []))


# ---------------------------------------------------------------------------
# sequences
# ---------------------------------------------------------------------------

@st.composite
def mls_cases(draw):
    form = draw(st.sampled_from(["bits", "length", "both"]))
    case = {"seed": draw(st.one_of(st.none(), st.integers(0, 2 ** 40))), "sr": draw(gen.sampling_rate)}
    if form != "length":
        case["bits"] = draw(st.integers(2, 11))
    if form != "bits":
        period = 2 ** case.get("bits", draw(st.integers(2, 9))) - 1
        case["length"] = draw(st.one_of(st.integers(0, 300), st.sampled_from([0, 1, 2, period, period + 1, max(2, period - 1), 2 * period, 2 * period + 1])))
    return case


def check_mls(case, ctx):
    arguments = {k: case[k] for k in ("bits", "seed", "length") if k in case}
    mls = sumpf.MaximumLengthSequence(sampling_rate=case["sr"], **arguments)
    bits = case.get("bits")
    length = case.get("length")
    if length is None:
        length = 2 ** bits - 1
    if bits is None:
        bits = 2
        while 2 ** bits - 1 < length:
            bits += 1
    period = 2 ** bits - 1
    what = f"{case}"
    gen.check_meta(mls, what, cls=sumpf.MaximumLengthSequence, sr=case["sr"], offset=0, labels=("MLS",), shape=(1, length))
    equal(mls.bits(), bits, f"{what}: bits")
    equal(mls.period_length(), period, f"{what}: period_length")
    nearly(mls.periods(), length / period, f"{what}: periods")
    x = mls.channels()[0]
    require(numpy.isin(x, (-1.0, 1.0)).all(), f"{what}: values other than -1.0 and 1.0")
    # make a whole period out of the sequence
    if length >= period:
        p = x[0:period]
        same_array(x, numpy.resize(p, length), f"{what}: repetitions of the sequence")
        correlation = numpy.fft.irfft(numpy.abs(numpy.fft.rfft(p)) ** 2, n=period)
        close(correlation, numpy.array([period] + [-1] * (period - 1)), f"{what}: periodic auto-correlation", atol=1e-6 * period)
        close(abs(p.sum()), 1.0, f"{what}: sum of the samples of a period", atol=1e-9)
        # all states of the shift register except for zero occur once
        states = {tuple(numpy.resize(p, period + bits)[i:i + bits].tolist()) for i in range(period)} if period < 600 else None
        if states is not None:
            equal(len(states), period, f"{what}: number of different patterns of {bits} samples")
    else:
        # in a cropped period no pattern may occur twice
        patterns = [tuple(x[i:i + bits].tolist()) for i in range(length - bits + 1)]
        equal(len(set(patterns)), len(patterns), f"{what}: number of different patterns of {bits} samples")
    if case["seed"] is not None:
        same_array(sumpf.MaximumLengthSequence(sampling_rate=case["sr"], **arguments).channels(), mls.channels(), f"{what}: the same seed again")
    ctx.nontrivial_if(length > 3)
    ctx.label("whole period" if length >= period else "cropped", "repeated" if length > period else "not repeated")


@st.composite
def rudin_shapiro_cases(draw):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 300)))
    res = draw(st.sampled_from([1.0, 0.5, 23.4375, 3, 0.1, 1000.0]))
    case = {"n": n, "res": res, "start": 0.0, "stop": None}
    if draw(st.booleans()):
        case["start"] = (draw(st.integers(0, n + 3)) + draw(st.sampled_from([0.0, 0.3, -0.3]))) * res
        case["start"] = max(case["start"], 0.0)
    if draw(st.booleans()):
        case["stop"] = (draw(st.integers(0, n + 6)) + draw(st.sampled_from([0.0, 0.3, -0.3]))) * res
        case["stop"] = max(case["stop"], case["start"])
    return case


def check_rudin_shapiro(case, ctx):
    n, res = case["n"], case["res"]
    spectrum = sumpf.RudinShapiroNoiseSpectrum(start_frequency=case["start"], stop_frequency=case["stop"], resolution=res, length=n)
    what = f"{case}"
    gen.check_meta(spectrum, what, cls=sumpf.RudinShapiroNoiseSpectrum, res=res, labels=("Noise",), shape=(1, n))
    a = min(int(round(case["start"] / res)), n)
    b = n if case["stop"] is None else min(int(round(case["stop"] / res)), n)
    expected = numpy.zeros(n)
    for i in range(a, b):
        expected[i] = (-1) ** bin((i - a) & ((i - a) >> 1)).count("1")      # the number of adjacent ones in the binary index
    same_array(spectrum.channels()[0], expected, f"{what}: the sequence in the bins {a} to {b}")
    equal(spectrum.sequence_length(), b - a, f"{what}: sequence_length")
    if a == 0 and b == n and n > 15 and n & (n - 1) == 0:
        # the crest factor is near its minimum of 6dB
        x = numpy.real(numpy.exp(2j * numpy.pi * numpy.outer(numpy.arange(4 * n), numpy.arange(n)) / (8 * n)) @ expected)
        crest = 20 * math.log10(numpy.max(numpy.abs(x)) / math.sqrt(n / 2))
        require(crest < 7.0, f"{what}: crest factor {crest} dB")
    ctx.nontrivial_if(b - a > 4)
    ctx.label("cropped" if b < n else "to the end", "offset" if a else "no offset")


# ---------------------------------------------------------------------------
# noise
# ---------------------------------------------------------------------------

def positive(low=0.2, high=20.0):
    return st.one_of(st.sampled_from([0.5, 1.0, 2.0, 1, 3, 10]), st.floats(low, high).map(lambda x: round(x, 3)))


MEANS = st.one_of(st.sampled_from([0.0, 1.0, -2, 100.0]), st.floats(-50.0, 50.0).map(lambda x: round(x, 3)))
PROBABILITIES = st.one_of(st.sampled_from([0.5, 0.1, 0.9, 0.99]), st.floats(0.01, 0.99).map(lambda x: round(x, 3)))


@st.composite
def boundaries(draw):
    a = draw(MEANS)
    b = a + draw(positive())
    return {"lower_boundary": a, "upper_boundary": b}


@st.composite
def triangular(draw):
    p = draw(boundaries())
    x = draw(st.one_of(st.none(), st.floats(0.0, 1.0)))
    if x is not None:
        p["mode"] = min(max(p["lower_boundary"] + x * (p["upper_boundary"] - p["lower_boundary"]), p["lower_boundary"]), p["upper_boundary"])
    return p


@st.composite
def hypergeometric(draw):
    a, b = draw(st.integers(0, 30)), draw(st.integers(0, 30))
    if a + b == 0:
        a = 1
    return {"acceptable": a, "non_acceptable": b, "draws": draw(st.integers(0, a + b))}


def triangular_cdf(x, p):
    a, b = p["lower_boundary"], p["upper_boundary"]
    c = p.get("mode")
    c = (a + b) / 2.0 if c is None else c
    left = (x - a) ** 2 / ((b - a) * (c - a)) if c > a else numpy.zeros(x.shape)
    right = 1.0 - (b - x) ** 2 / ((b - a) * (b - c)) if b > c else numpy.ones(x.shape)
    return numpy.where(x <= a, 0.0, numpy.where(x >= b, 1.0, numpy.where(x < c, left, right)))


def von_mises_cdf(x, p):
    """the CDF for samples, that have been rotated, so that the mode is in the middle"""
    return scipy.stats.vonmises(kappa=p.get("dispersion", 1.0)).cdf(x)


S = scipy.stats
# class name: (label, parameter strategy, default parameters, CDF, lower limit, upper limit, discrete)
NOISES = {
    "UniformNoise": ("Uniform noise", boundaries(), {"lower_boundary": -1.0, "upper_boundary": 1.0},
                     lambda x, p: numpy.clip((x - p["lower_boundary"]) / (p["upper_boundary"] - p["lower_boundary"]), 0.0, 1.0),
                     lambda p: p["lower_boundary"], lambda p: p["upper_boundary"], False),
    "GaussianNoise": ("Gaussian noise", st.fixed_dictionaries({"mean": MEANS, "standard_deviation": positive()}), {"mean": 0.0, "standard_deviation": 1.0},
                      lambda x, p: S.norm.cdf(x, p["mean"], p["standard_deviation"]), None, None, False),
    "PoissonNoise": ("Poisson noise", st.fixed_dictionaries({"lambda_": st.one_of(st.just(0.0), positive())}), {"lambda_": 0.0},
                     lambda x, p: S.poisson.cdf(x, p["lambda_"]) if p["lambda_"] else (x >= 0) * 1.0, lambda p: 0, None, True),
    "LaplaceNoise": ("Laplace noise", st.fixed_dictionaries({"mean": MEANS, "decay": positive()}), {"mean": 0.0, "decay": 1.0},
                     lambda x, p: S.laplace.cdf(x, p["mean"], p["decay"]), None, None, False),
    "VonMisesNoise": ("von Mises noise", st.fixed_dictionaries({"mode": st.floats(-3.1, 3.1).map(lambda x: round(x, 3)), "dispersion": positive()}), {"mode": 0.0, "dispersion": 1.0},
                      von_mises_cdf, lambda p: -math.pi, lambda p: math.pi, False),
    "TriangularNoise": ("Triangular noise", triangular(), {"lower_boundary": -1.0, "upper_boundary": 1.0}, triangular_cdf,
                        lambda p: p["lower_boundary"], lambda p: p["upper_boundary"], False),
    "GeometricNoise": ("Geometric noise", st.fixed_dictionaries({"p": PROBABILITIES}), {"p": 0.5}, lambda x, p: S.geom.cdf(x, p["p"]), lambda p: 1, None, True),
    "HypergeometricNoise": ("Hypergeometric noise", hypergeometric(), {"acceptable": 1, "non_acceptable": 1, "draws": 1},
                            lambda x, p: S.hypergeom.cdf(x, p["acceptable"] + p["non_acceptable"], p["acceptable"], p["draws"]),
                            lambda p: max(0, p["draws"] - p["non_acceptable"]), lambda p: min(p["draws"], p["acceptable"]), True),
    "BinomialNoise": ("Binomial noise", st.fixed_dictionaries({"p": PROBABILITIES, "draws": st.integers(1, 30)}), {"p": 0.5, "draws": 1},
                      lambda x, p: S.binom.cdf(x, p["draws"], p["p"]), lambda p: 0, lambda p: p["draws"], True),
    "BetaNoise": ("Beta noise", st.fixed_dictionaries({"alpha": positive(), "beta": positive()}), {"alpha": 1.0, "beta": 1.0},
                  lambda x, p: S.beta.cdf(x, p["alpha"], p["beta"]), lambda p: 0.0, lambda p: 1.0, False),
    "GammaNoise": ("Gamma noise", st.fixed_dictionaries({"shape": positive(), "scale": positive()}), {"shape": 1.0, "scale": 1.0},
                   lambda x, p: S.gamma.cdf(x, p["shape"], scale=p["scale"]), lambda p: 0.0, None, False),
    "LogarithmicNoise": ("Logarithmic noise", st.fixed_dictionaries({"p": PROBABILITIES}), {"p": 0.5}, lambda x, p: S.logser.cdf(x, p["p"]), lambda p: 1, None, True),
    "LogisticNoise": ("Logistic noise", st.fixed_dictionaries({"mean": MEANS, "scale": positive()}), {"mean": 0.0, "scale": 1.0},
                      lambda x, p: S.logistic.cdf(x, p["mean"], p["scale"]), None, None, False),
    "LomaxNoise": ("Lomax noise", st.fixed_dictionaries({"shape": positive()}), {"shape": 1.0}, lambda x, p: S.lomax.cdf(x, p["shape"]), lambda p: 0.0, None, False),
    "WaldNoise": ("Wald noise", st.fixed_dictionaries({"mean": positive(), "scale": positive()}), {"mean": 1.0, "scale": 1.0},
                  lambda x, p: S.invgauss.cdf(x, p["mean"] / p["scale"], scale=p["scale"]), lambda p: 0.0, None, False),
    "ChiSquareNoise": ("Chi-square noise", st.fixed_dictionaries({"degrees_of_freedom": positive()}), {"degrees_of_freedom": 1.0},
                       lambda x, p: S.chi2.cdf(x, p["degrees_of_freedom"]), lambda p: 0.0, None, False),
}

N = 4000
# Dvoretzky-Kiefer-Wolfowitz: the probability, that the empirical CDF deviates by more than this, is 2e-14
EPSILON = math.sqrt(math.log(2 / 2e-14) / (2 * N))


@st.composite
def noise_cases(draw):
    name = draw(st.sampled_from(sorted(NOISES)))
    case = {"class": name, "sr": draw(gen.sampling_rate), "seed": draw(st.one_of(st.none(), st.integers(0, 2 ** 40), st.integers(0, 3))), "small": draw(st.integers(0, 20))}
    if draw(st.integers(0, 5)):
        case["p"] = draw(NOISES[name][1])
        case["drop"] = draw(st.integers(0, 5))
    return case


def check_noise(case, ctx):
    name = case["class"]
    label, _, defaults, cdf, low, high, discrete = NOISES[name]
    cls = getattr(sumpf, name)
    given = dict(case.get("p", {}))
    parameters = dict(defaults, **given)
    what = f"{case}"
    state = numpy.random.get_state()
    state2 = random.getstate()
    noise = cls(seed=case["seed"], sampling_rate=case["sr"], length=N, **given)
    gen.check_meta(noise, what, cls=cls, sr=case["sr"], offset=0, labels=(label,), shape=(1, N))
    equal(noise.seed(), case["seed"], f"{what}: seed()")
    x = numpy.array(noise.channels()[0])
    require(numpy.isfinite(x).all(), f"{what}: not all samples are finite")
    # the range and the distribution
    if low is not None:
        require(x.min() >= low(parameters), f"{what}: minimum {x.min()}")
    if high is not None:
        require(x.max() <= high(parameters), f"{what}: maximum {x.max()}")
    y = x
    if name == "VonMisesNoise":
        y = numpy.mod(x - parameters["mode"] + math.pi, 2 * math.pi) - math.pi
    if discrete:
        same_array(x, numpy.round(x), f"{what}: samples of a discrete distribution")
        k = numpy.arange(int(x.min()) - 1, int(min(x.max(), 2000)) + 1)
        empirical = numpy.searchsorted(numpy.sort(x), k, side="right") / N
        deviation = numpy.abs(empirical - cdf(k, parameters)).max()
    else:
        y = numpy.sort(y)
        f = cdf(y, parameters)
        deviation = max((numpy.arange(1, N + 1) / N - f).max(), (f - numpy.arange(N) / N).max())
    require(deviation < EPSILON, f"{what}: the cumulative distribution function deviates by {deviation}")
    # the samples are independent (auto-correlation of the ranks)
    ranks = scipy.stats.rankdata(x) - (N + 1) / 2.0
    energy = (ranks ** 2).sum()
    if energy > 0.05 * N ** 3 / 12:
        for lag in (1, 2, 3, 7, N // 2):
            z = (ranks[lag:] * ranks[:-lag]).sum() / energy * N / math.sqrt(N - lag)
            require(abs(z) < 9.0, f"{what}: the samples are correlated with those, that are {lag} samples earlier (z = {z})")
    # reproducibility
    varying = len(set(x[0:200].tolist())) > 60
    again = cls(seed=case["seed"], sampling_rate=case["sr"], length=N, **given)
    if case["seed"] is not None:
        same_array(again.channels()[0], x, f"{what}: the same seed again")
        different = cls(seed=case["seed"] + 1, sampling_rate=case["sr"], length=N, **given)
        if varying:
            require((different.channels()[0] != x).any(), f"{what}: the same samples with another seed")
    elif varying:
        require((again.channels()[0] != x).any(), f"{what}: twice the same samples without a seed")
    # other lengths
    small = cls(seed=case["seed"], sampling_rate=case["sr"], length=case["small"], **given)
    equal(small.shape(), (1, case["small"]), f"{what}: shape with the length {case['small']}")
    # parameters by position
    if name != "TriangularNoise" and len(given) == len(defaults) and case["seed"] is not None and list(given) == list(defaults):
        same_array(cls(*given.values(), case["seed"], case["sr"], N).channels()[0], x, f"{what}: positional parameters")
    # the global random number generators
    after = numpy.random.get_state()
    require(all(numpy.array_equal(a, b) for a, b in zip(state, after)), f"{what}: the state of numpy's global random number generator")
    equal(random.getstate() == state2, True, f"{what}: the state of the global random number generator")
    ctx.nontrivial_if(varying)
    ctx.label(name, "seed" if case["seed"] is not None else "no seed")


SUBS = [
    Sub("wave", wave_cases(), check_wave, quick=1500, rule="more than two samples and a frequency other than zero"),
    Sub("constant", constant_cases(), check_constant, quick=500, rule="not empty and not zero"),
    Sub("fade", fade_cases(), check_fade, quick=4000, rule="two fades or one with more than one sample"),
    Sub("mls", mls_cases(), check_mls, quick=1000, rule="length > 3"),
    Sub("rudin_shapiro", rudin_shapiro_cases(), check_rudin_shapiro, quick=1200, rule="a sequence longer than 4"),
    Sub("noise", noise_cases(), check_noise, quick=1200, rule="many different samples"),
    defaults.sub("P26", 500),
]
