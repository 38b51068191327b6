"""Weighting, derivative and delay filters have their standard responses"""

import math
from hypothesis import strategies as st
import numpy
import sumpf
from vlib import gen
from vlib.core import Sub, close, equal, fail, require

frequency = st.one_of(st.floats(-1.0, 6.0).map(lambda x: float(10.0 ** x)), st.integers(1, 30000).map(float), st.integers(-20, 13).map(lambda n: 1000.0 * 10.0 ** (n / 10)),
                      st.sampled_from([20.6, 107.7, 158.5, 737.9, 1000.0, 12194.0, 12200.0, 282.7, 1160.0, 3000.0, 6000.0]))

# ---------------------------------------------------------------------------
# weighting
# ---------------------------------------------------------------------------

# the pole frequencies of IEC 61672-1, annex E
_FR, _FL, _FH, _D = 1000.0, 10.0 ** 1.5, 10.0 ** 3.9, math.sqrt(0.5)
_C = _FL ** 2 * _FH ** 2
_B = (_FR ** 2 + _C / _FR ** 2 - _D * (_FL ** 2 + _FH ** 2)) / (1.0 - _D)
F1 = math.sqrt((-_B - math.sqrt(_B ** 2 - 4.0 * _C)) / 2.0)
F4 = math.sqrt((-_B + math.sqrt(_B ** 2 - 4.0 * _C)) / 2.0)
FA = 10.0 ** 2.45
F2 = (3.0 - math.sqrt(5.0)) / 2.0 * FA
F3 = (3.0 + math.sqrt(5.0)) / 2.0 * FA
assert abs(F1 - 20.598997) < 1e-6 and abs(F4 - 12194.217) < 1e-3 and abs(F2 - 107.65265) < 1e-5 and abs(F3 - 737.86223) < 1e-5


def weighting(name, f):
    """The transfer function, that is not normalized"""
    s = 1j * f      # a common factor of 2*pi doesn't change anything
    if name == "A":
        return s ** 4 / ((s + F1) ** 2 * (s + F2) * (s + F3) * (s + F4) ** 2)
    if name == "B":
        return s ** 3 / ((s + F1) ** 2 * (s + 158.5) * (s + F4) ** 2)
    if name == "C":
        return s ** 2 / ((s + F1) ** 2 * (s + F4) ** 2)
    if name == "D":
        return s * (s * s + math.sqrt(1080768.16) * s + 1037918.48) / ((s + math.sqrt(79919.29)) * (s + math.sqrt(1345600.0)) * (s * s + math.sqrt(11723776.0) * s + 9837328.0))
    result = 1.0
    for p in (12200.0, 12200.0, 7850.0 - 8800.0j, 7850.0 + 8800.0j, 2900.0 - 12150.0j, 2900.0 + 12150.0j):
        result = result / (s + p)
    return result


# the nominal attenuations in dB for f = 1000 * 10^(n / 10), n = -20...13
TABLES = {"A": [-70.4, -63.4, -56.7, -50.5, -44.7, -39.4, -34.6, -30.2, -26.2, -22.5, -19.1, -16.1, -13.4, -10.9, -8.6, -6.6, -4.8, -3.2, -1.9, -0.8, 0.0,
                0.6, 1.0, 1.2, 1.3, 1.2, 1.0, 0.5, -0.1, -1.1, -2.5, -4.3, -6.6, -9.3],
          "C": [-14.3, -11.2, -8.5, -6.2, -4.4, -3.0, -2.0, -1.3, -0.8, -0.5, -0.3, -0.2, -0.1, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
                0.0, -0.1, -0.2, -0.3, -0.5, -0.8, -1.3, -2.0, -3.0, -4.4, -6.2, -8.5, -11.2]}


@st.composite
def weighting_case(draw):
    return {"w": draw(st.sampled_from("ABCDU")), "f": draw(st.lists(frequency, min_size=1, max_size=6)), "scalar": draw(st.booleans()), "n": draw(st.integers(-20, 13))}


def check_weighting(case, ctx):
    name = case["w"]
    filter_ = getattr(sumpf, name + "Weighting")()
    equal(len(filter_), 1, "number of channels")
    equal(filter_.labels(), (f"{name}-weighting",), "label")
    f = case["f"]
    if case["scalar"]:
        response = numpy.array([filter_(x)[0] for x in f])
    else:
        response = filter_(numpy.array(f))[0]
    reference = weighting(name, 1000.0)
    at_1k = complex(filter_(1000.0)[0])
    close(abs(at_1k), 1.0, f"magnitude of the {name}-weighting at 1kHz", rtol=1e-12)
    expected = numpy.array([weighting(name, x) / reference for x in f])
    close(numpy.abs(response), numpy.abs(expected), f"magnitude of the {name}-weighting", rtol=1e-9)
    # the phase relative to that at the reference frequency
    close(response / at_1k, expected, f"response of the {name}-weighting relative to that at 1kHz", rtol=1e-8)
    if name in TABLES:
        n = case["n"]
        level = 20.0 * math.log10(abs(complex(filter_(1000.0 * 10.0 ** (n / 10.0))[0])))
        require(abs(level - TABLES[name][n + 20]) <= 0.0501, lambda: f"level of the {name}-weighting in band {n} is {level} dB instead of {TABLES[name][n + 20]}")
    if name != "U":
        equal(complex(filter_(0.0)[0]), 0j, f"{name}-weighting at 0 Hz")
    require(filter_ == getattr(sumpf, name + "Weighting")(), "two instances of a weighting filter are not equal")
    sampled = filter_.spectrum(resolution=f[0], length=4)
    close(numpy.abs(sampled.channels()[0, 1:]), [abs(weighting(name, k * f[0]) / reference) for k in (1, 2, 3)], f"spectrum of the {name}-weighting", rtol=1e-9)
    ctx.nontrivial_if(any(x != 1000.0 for x in f))
    ctx.label(name)


# ---------------------------------------------------------------------------
# delay
# ---------------------------------------------------------------------------

delay = st.one_of(st.sampled_from([0.0, 0.1, 1.0, -0.02, 1, 2, -3, 1e-6]), st.floats(-2.0, 2.0).map(lambda x: float(numpy.round(x, 6))), st.floats(-1e-3, 1e-3))


@st.composite
def delay_case(draw):
    c = draw(st.integers(1, 3))
    length = 2 * draw(st.integers(1, 30))
    return {"d": draw(delay), "e": draw(delay), "f": draw(st.lists(st.one_of(frequency.filter(lambda x: x < 1e5), st.just(0.0)), min_size=1, max_size=5)),
            "x": draw(gen.signals(channels=(c, c), lengths=(length, length))), "n": draw(st.integers(-70, 70)), "order": draw(st.booleans())}


def check_delay(case, ctx):
    d, e = case["d"], case["e"]
    f = numpy.array(case["f"])
    filter_ = sumpf.DelayFilter(delay=d)
    equal(filter_.labels(), ("Delay",), "label")
    equal(len(filter_), 1, "number of channels")
    tolerance = 1e-11 + 1e-15 * 2 * math.pi * float(f.max()) * (abs(d) + abs(e)) * 10
    response = filter_(f)[0]
    close(response, numpy.exp(-2j * math.pi * f * d), "response of the delay", atol=tolerance)
    close(numpy.abs(response), numpy.ones(len(f)), "magnitude of the delay", atol=1e-11)
    other = sumpf.DelayFilter(delay=e)
    both = sumpf.DelayFilter(delay=d + e)
    close((filter_ * other)(f)[0], both(f)[0], "product of two delays", atol=2 * tolerance)
    close((~filter_)(f)[0], sumpf.DelayFilter(delay=-d)(f)[0], "inverse of a delay", atol=tolerance)
    close((filter_ / other)(f)[0], sumpf.DelayFilter(delay=d - e)(f)[0], "quotient of two delays", atol=2 * tolerance)
    # a delay by whole samples is a cyclic shift
    s = gen.make(case["x"])
    n = case["n"]
    x = sumpf.DelayFilter(delay=n / s.sampling_rate())
    shifted = x * s if case["order"] else s * x
    channels = numpy.array([numpy.roll(c, n + s.offset()) for c in s.channels()])
    equal(shifted.offset(), 0, "offset of the delayed signal")
    close(shifted.channels(), channels, "signal, that is delayed by whole samples", atol=1e-9 * float(numpy.abs(channels).max(initial=0.0)) + 1e-300)
    ctx.nontrivial_if(d and n % s.length())
    ctx.label("negative" if d < 0 else ("zero" if d == 0 else "positive"))


# ---------------------------------------------------------------------------
# derivative
# ---------------------------------------------------------------------------

@st.composite
def derivative_case(draw):
    length = 2 * draw(st.integers(4, 40))
    bins = length // 2
    return {"f": draw(st.lists(st.one_of(frequency, st.just(0.0)), min_size=1, max_size=5)), "n": draw(st.integers(1, 5)), "length": length,
            "sr": draw(gen.sampling_rate), "o": draw(st.integers(-10, 10)),
            "components": draw(st.lists(st.tuples(st.integers(0, bins - 1), st.floats(-3.0, 3.0), st.floats(0.1, 2.0)), min_size=1, max_size=4))}


def check_derivative(case, ctx):
    filter_ = sumpf.DerivativeFilter()
    equal(filter_.labels(), ("Derivative",), "label")
    f = numpy.array(case["f"])
    close(filter_(f)[0], 2j * math.pi * f, "response of the derivative filter", rtol=1e-13)
    power = filter_
    for _ in range(case["n"] - 1):
        power = power * filter_
    close(power(f)[0], (2j * math.pi * f) ** case["n"], "response of the repeated derivative", rtol=1e-11)
    close((~filter_)(f[f > 0])[0], 1.0 / (2j * math.pi * f[f > 0]), "response of the inverse derivative", rtol=1e-12)
    # a periodic signal
    length, sr = case["length"], case["sr"]
    t = (numpy.arange(length) + case["o"]) / sr
    t0 = numpy.arange(length) / sr
    x = numpy.zeros(length)
    y = numpy.zeros(length)
    z = numpy.zeros(length)
    scale = 0.0
    scale2 = 0.0
    for k, phase, amplitude in case["components"]:
        w = 2.0 * math.pi * k * sr / length
        x += amplitude * numpy.cos(w * t + phase)
        y -= amplitude * w * numpy.sin(w * t0 + phase)
        z -= amplitude * w * w * numpy.cos(w * t0 + phase)
        scale += amplitude * 2.0 * math.pi * sr
        scale2 += amplitude * (2.0 * math.pi * sr) ** 2
    s = sumpf.Signal(channels=numpy.array([x, -2.0 * x]), sampling_rate=sr, offset=case["o"])
    first = filter_ * s
    close(first.channels(), numpy.array([y, -2.0 * y]), "derivative of a periodic signal", atol=1e-11 * scale)
    second = s * (filter_ * filter_)
    close(second.channels(), numpy.array([z, -2.0 * z]), "second derivative of a periodic signal", atol=1e-10 * scale2)
    ctx.nontrivial_if(any(k for k, _, _ in case["components"]))


# ---------------------------------------------------------------------------
# repeated sampling
# ---------------------------------------------------------------------------

@st.composite
def sampling_case(draw):
    """several queries, some of which differ from the query before in only one aspect"""
    query = draw(st.lists(st.one_of(frequency.filter(lambda x: x < 1e5), st.just(0.0)), min_size=1, max_size=5))
    steps = []
    for _ in range(draw(st.integers(2, 6))):
        change = draw(st.sampled_from(["same", "one", "one", "inner", "permute", "new", "scale"]))
        if change == "one":
            i = draw(st.integers(0, len(query) - 1))
            query = query[:i] + [draw(frequency.filter(lambda x: x < 1e5))] + query[i + 1:]
        elif change == "inner":
            query = [query[0], *draw(st.lists(frequency.filter(lambda x: x < 1e5), min_size=1, max_size=3)), query[-1]]
        elif change == "permute":
            query = draw(st.permutations(query))
        elif change == "scale":
            query = [x * 0.5 for x in query]
        elif change == "new":
            query = draw(st.lists(frequency.filter(lambda x: x < 1e5), min_size=1, max_size=5))
        steps.append({"w": draw(st.sampled_from(["A", "B", "C", "D", "U", "delay", "derivative"])), "f": list(query), "reuse": draw(st.booleans()), "as": draw(st.sampled_from(["array", "list", "scalars", "bins"]))})
    return {"steps": steps, "d": draw(delay)}


def check_sampling(case, ctx):
    filters = {}
    d = case["d"]
    for i, step in enumerate(case["steps"]):
        name = step["w"]
        if name not in filters or not step["reuse"]:
            filters[name] = sumpf.DelayFilter(delay=d) if name == "delay" else (sumpf.DerivativeFilter() if name == "derivative" else getattr(sumpf, name + "Weighting")())
        filter_ = filters[name]
        f = step["f"]
        if step["as"] == "bins":
            f = [k * f[0] for k in range(len(f) + 1)]
            response = filter_.spectrum(resolution=step["f"][0], length=len(f)).channels()[0]
        elif step["as"] == "scalars":
            response = numpy.array([filter_(x)[0] for x in f])
        else:
            response = filter_(numpy.array(f) if step["as"] == "array" else f)[0]
        what = f"step {i}: {name} at {f} Hz"
        equal(numpy.shape(response), (len(f),), f"{what}: shape")
        if name == "delay":
            close(response, numpy.exp(-2j * math.pi * numpy.array(f) * d), what, atol=1e-11 + 1e-14 * 2 * math.pi * max(f) * abs(d))
        elif name == "derivative":
            close(response, 2j * math.pi * numpy.array(f), what, rtol=1e-13)
        else:
            close(numpy.abs(response), [abs(weighting(name, x) / weighting(name, 1000.0)) for x in f], what, rtol=1e-9)
    ctx.nontrivial_if(len({tuple(s["f"]) for s in case["steps"]}) > 1)


SUBS = [
    Sub("sampling", sampling_case(), check_sampling, quick=3000, rule="at least two different sets of frequencies"),
    Sub("weighting", weighting_case(), check_weighting, quick=4000, rule="a frequency other than the reference frequency"),
    Sub("delay", delay_case(), check_delay, quick=4000, rule="a non-zero delay and a shift, that is not a multiple of the length"),
    Sub("derivative", derivative_case(), check_derivative, quick=3000, rule="a signal, that is not constant"),
]
ASSUMPTIONS = ["the phase of the weighting filters is only compared relative to the phase at 1kHz"]
