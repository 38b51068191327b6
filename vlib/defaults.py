"""The default values of optional parameters, that are part of the public interface: omitting an argument does the same as
passing its default value, in any combination with other arguments."""

from hypothesis import strategies as st
import numpy
import sumpf
from . import gen
from .core import Sub, equal, nearly, require, same_array

_SIGNAL = {"sampling_rate": 48000.0, "length": 2 ** 16}
_NOISE = {"seed": None, **_SIGNAL}
_WINDOW = {"plateau": 0, "sampling_rate": 48000.0, "length": 8192, "symmetric": True}
_FILTER = {"cutoff_frequency": 1000.0, "order": 1, "highpass": False}
_DATA = {"offset": 0, "labels": None}

CLASSES = {
    "P12": {"Signal": {"channels": [[]], "sampling_rate": 48000.0, **_DATA},
            "Spectrum": {"channels": [[]], "resolution": 1.0, "labels": None},
            "Spectrogram": {"channels": [[[]]], "resolution": 1.0, "sampling_rate": 48000.0, **_DATA}},
    "P15": {"ButterworthFilter": _FILTER, "BesselFilter": _FILTER, "Chebyshev1Filter": {"ripple": 3.0, **_FILTER}, "Chebyshev2Filter": {"ripple": 60.0, **_FILTER}},
    "P24": {"DolphChebyshevWindow": {"attenuation": 150.0, **_WINDOW}, "ExponentialWindow": {"decay": 100.0, **_WINDOW}, "GaussianWindow": {"standard_deviation": 1.0, **_WINDOW},
            "KaiserWindow": {"beta": 9.4248, **_WINDOW}, "SlepianWindow": {"beta": 9.4248, **_WINDOW},
            "FlatTopWindow": {"function": "FlatTopWindow.functions.DEFAULT", **_WINDOW}, "NuttallWindow": {"function": "NuttallWindow.functions.NUTTALL4C", **_WINDOW},
            **{name: _WINDOW for name in ("BartlettWindow", "BlackmanWindow", "HammingWindow", "HannWindow", "RectangularWindow")}},
    "P26": {"SineWave": {"frequency": 1000.0, "phase": 0.0, **_SIGNAL}, "SquareWave": {"frequency": 1000.0, "phase": 0.0, **_SIGNAL},
            "ConstantSignal": {"value": 0.0, **_SIGNAL}, "ConstantSpectrum": {"value": 0.0, "resolution": 1.0, "length": 1},
            "ConstantSpectrogram": {"value": 0.0, "resolution": 48000.0 / 4096, "sampling_rate": 48000.0 / 4096, "number_of_frequencies": 2049, "length": 32},
            "Fade": {"rise_interval": None, "fall_interval": None, **_SIGNAL},
            "MaximumLengthSequence": {"bits": None, "seed": None, "sampling_rate": 48000.0, "length": None},
            "RudinShapiroNoiseSpectrum": {"start_frequency": 0.0, "stop_frequency": None, "resolution": 1.0, "length": 1},
            "BetaNoise": {"alpha": 1.0, "beta": 1.0, **_NOISE}, "BinomialNoise": {"p": 0.5, "draws": 1, **_NOISE}, "ChiSquareNoise": {"degrees_of_freedom": 1.0, **_NOISE},
            "GammaNoise": {"shape": 1.0, "scale": 1.0, **_NOISE}, "GaussianNoise": {"mean": 0.0, "standard_deviation": 1.0, **_NOISE}, "GeometricNoise": {"p": 0.5, **_NOISE},
            "HypergeometricNoise": {"acceptable": 1, "non_acceptable": 1, "draws": 1, **_NOISE}, "LaplaceNoise": {"mean": 0.0, "decay": 1.0, **_NOISE},
            "LogarithmicNoise": {"p": 0.5, **_NOISE}, "LogisticNoise": {"mean": 0.0, "scale": 1.0, **_NOISE}, "LomaxNoise": {"shape": 1.0, **_NOISE},
            "PoissonNoise": {"lambda_": 0.0, **_NOISE}, "TriangularNoise": {"lower_boundary": -1.0, "upper_boundary": 1.0, "mode": None, **_NOISE},
            "UniformNoise": {"lower_boundary": -1.0, "upper_boundary": 1.0, **_NOISE}, "VonMisesNoise": {"mode": 0.0, "dispersion": 1.0, **_NOISE}, "WaldNoise": {"mean": 1.0, "scale": 1.0, **_NOISE}},
}
SIGNAL, SPECTRUM, SPECTROGRAM, FILTER = "signal", "spectrum", "spectrogram", "filter"
_SINGLE = {"single_value": False}
METHODS = {
    "P05": [(SIGNAL, "shift", {"shift": 3}, {"mode": "Signal.shift_modes.OFFSET"}), (SPECTROGRAM, "shift", {"shift": 1}, {"mode": "Spectrogram.shift_modes.OFFSET"}),
            (SIGNAL, "pad", {"length": 2000}, {"value": 0.0}), (SPECTRUM, "pad", {"length": 300}, {"value": 0.0}), (SPECTROGRAM, "pad", {"length": 30}, {"value": 0.0})],
    "P09": [(SIGNAL, "convolve", {"other": "<signal>"}, {"mode": "Signal.convolution_modes.SPECTRUM_PADDED"}), (SIGNAL, "correlate", {"other": "<signal>"}, {"mode": "Signal.convolution_modes.SPECTRUM_PADDED"})],
    "P07": [(SIGNAL, "fourier_transform", {}, {"window": None, "overlap": 0.5, "pad": True}), (SIGNAL, "fourier_transform", {"window": 64}, {"overlap": 0.5, "pad": True}),
            (SIGNAL, "short_time_fourier_transform", {}, {"window": 4096, "overlap": 0.5, "pad": True})],
    "P08": [(SPECTROGRAM, "inverse_short_time_fourier_transform", {}, {"window": 4096, "overlap": 0.5, "pad": True})],
    "P11": [(SIGNAL, name, {}, _SINGLE) for name in ("level", "mean", "variance", "standard_deviation", "skewness", "kurtosis")] +
           [(SPECTRUM, "level", {}, _SINGLE), (SIGNAL, "level_vs_time", {}, {"integration_time": 1.0, "pad": False})],
    "P14": [(FILTER, "spectrum", {}, {"resolution": 48000.0 / 4096, "length": 2049})],
}
_ALTERNATIVES = {"sampling_rate": [44100.0, 96000, 7.5], "length": [1, 2, 63, 500], "frequency": [100.0, 3], "phase": [1.25], "value": [1.0, -2.5], "resolution": [0.5, 3], "number_of_frequencies": [5],
                 "seed": [], "symmetric": [False], "plateau": [1, 7, 0.5], "order": [2, 5], "cutoff_frequency": [100.0], "highpass": [True], "ripple": [6.0, 20.0], "offset": [5, -2], "labels": [["x"]],
                 "single_value": [True], "overlap": [0.25, 0.75], "pad": [False, True], "integration_time": [0.001, 0.01], "rise_interval": [[0.1, 0.4]], "fall_interval": [[0.6, 0.8]]}


def _value(v):
    """resolves the values, which are members of enumerations or data sets"""
    if v == "<signal>":
        return sumpf.Signal(channels=numpy.array([[1.0, -2.0, 0.5]]), sampling_rate=48000.0, offset=-1, labels=("o",))
    if isinstance(v, str) and v.count(".") == 2:
        result = sumpf
        for name in v.split("."):
            result = getattr(result, name)
        return result
    return v


@st.composite
def cases(draw, prop):
    choices = []
    for name in CLASSES.get(prop, ()):
        choices.append(["class", name])
    for i in range(len(METHODS.get(prop, ()))):
        choices.append(["method", i])
    kind, which = draw(st.sampled_from(choices))
    defaults = CLASSES[prop][which] if kind == "class" else METHODS[prop][which][3]
    case = {"kind": kind, "which": which, "prop": prop, "omitted": [], "passed": {}, "seed": draw(gen.seed), "positional": draw(st.integers(0, len(defaults)))}
    for key, value in defaults.items():
        if draw(st.booleans()):
            case["omitted"].append(key)
        else:
            case["passed"][key] = draw(st.sampled_from([value] + _ALTERNATIVES.get(key, [])))
    if prop == "P07" and kind == "method" and METHODS[prop][which][2] == {} and METHODS[prop][which][1] == "fourier_transform":     # without a window, the other arguments are irrelevant
        case["omitted"] = ["window"] + [k for k in case["omitted"] if k != "window"]
        case["passed"].pop("window", None)
    return case


def _receiver(kind, seed):
    rng = numpy.random.Generator(numpy.random.PCG64(seed))
    if kind == SIGNAL:
        return sumpf.Signal(channels=rng.normal(size=(2, int(rng.integers(4096, 6000)))), sampling_rate=48000.0, offset=int(rng.integers(-5, 6)), labels=("a", "b"))
    if kind == SPECTRUM:
        return sumpf.Spectrum(channels=rng.normal(size=(2, 100)) + 1j * rng.normal(size=(2, 100)), resolution=2.0, labels=("a", "b"))
    if kind == SPECTROGRAM:
        return sumpf.Spectrogram(channels=rng.normal(size=(2, 2049, 5)) + 1j * rng.normal(size=(2, 2049, 5)), resolution=48000.0 / 4096, sampling_rate=48000.0 / 2048, offset=1, labels=("a", "b"))
    return (sumpf.Filter.Constant(2.0) and sumpf.ButterworthFilter(cutoff_frequency=1000.0 + seed % 1000, order=2)) * 2.0


def _same(a, b, what):
    require(type(a) is type(b), lambda: f"{what}: a {type(a).__name__} instead of a {type(b).__name__}")
    if isinstance(a, sumpf.Filter):
        equal(tuple(a.labels()), tuple(b.labels()), f"{what}: labels")
        f = numpy.array([0.0, 1.0, 999.0, 1000.0, 1001.0, 20000.0])
        for x, y in zip(a(f), b(f)):
            same_array(numpy.array(x), numpy.array(y), f"{what}: response")
    elif isinstance(a, (sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram)):
        same_array(a.channels(), b.channels(), f"{what}: channels")
        for method in ("sampling_rate", "resolution", "offset", "labels", "shape"):
            if hasattr(b, method):
                equal(getattr(a, method)(), getattr(b, method)(), f"{what}: {method}")
        if isinstance(b, sumpf.RudinShapiroNoiseSpectrum) or isinstance(b, sumpf.SineWave):
            for method in ("minimum_frequency", "maximum_frequency", "periods", "start_frequency", "stop_frequency"):
                if hasattr(b, method):
                    nearly(getattr(a, method)(), getattr(b, method)(), f"{what}: {method}")
    elif isinstance(a, tuple) and a and isinstance(a[0], (sumpf.Signal, sumpf.Spectrum)):
        for x, y in zip(a, b):
            _same(x, y, what)
    else:
        same_array(numpy.array(a), numpy.array(b), what)


def check(case, ctx):
    kind, which = case["kind"], case["which"]
    passed = {k: _value(v) for k, v in case["passed"].items()}
    if kind == "class":
        required = {}
        defaults = CLASSES[case["prop"]][which]
        function = getattr(sumpf, which)
        what = which
    else:
        receiver, name, required, defaults = METHODS[case["prop"]][which]
        required = {k: _value(v) for k, v in required.items()}
        function = getattr(_receiver(receiver, case["seed"]), name)
        what = f"{receiver}.{name}"
    complete = {**{k: _value(v) for k, v in defaults.items()}, **passed}
    for d in (passed, complete):
        if "channels" in d:
            d["channels"] = numpy.array(d["channels"], dtype=float)
    if "seed" in defaults:      # without a seed, the results are not reproducible
        passed["seed"] = complete["seed"] = case["seed"] % 1000
    omitted = sorted(set(complete) - set(passed))
    what = f"{what} without {', '.join(omitted)}, compared to the one, for which the default values are passed"
    ctx.nontrivial_if(bool(omitted))
    ctx.label(which if kind == "class" else name, f"{len(omitted)} omitted")
    try:
        expected = function(**required, **complete)
    except Exception as e:      # the combination of arguments is refused
        try:
            function(**required, **passed)
        except Exception as f:
            require(type(e) is type(f), lambda: f"{what}: {f!r} instead of {e!r}")
            return
        raise
    _same(function(**required, **passed), expected, what)


def sub(prop, quick):
    return Sub("defaults", cases(prop), check, quick=quick, rule="arguments are omitted")
