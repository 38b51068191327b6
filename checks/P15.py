"""IIR filter classes match the analog prototypes, that they name"""

from fractions import Fraction
import math
from hypothesis import strategies as st
import numpy
import scipy.signal
import sumpf
from vlib import defaults, gen
from vlib.core import Sub, close, equal, fail, require

TYPES = ["Butterworth", "Bessel", "Chebyshev1", "Chebyshev2"]


@st.composite
def case_strategy(draw):
    t = draw(st.sampled_from(TYPES))
    case = {"t": t, "order": draw(st.one_of(st.integers(1, 6), st.integers(1, 12 if t == "Bessel" else 20), st.integers(1, 18 if t == "Bessel" else 50))), "hp": draw(st.booleans()),
            "fc": draw(st.one_of(st.sampled_from([1000.0, 1.0, 100, 20000.0, 1 / math.pi, 0.01]), st.floats(-1.0, 5.0).map(lambda x: float(numpy.round(10.0 ** x, 3))))),
            # frequencies relative to the cutoff frequency
            "f": draw(st.lists(st.one_of(st.floats(-2.5, 2.5).map(lambda x: float(10.0 ** x)), st.floats(-0.15, 0.15).map(lambda x: float(10.0 ** x)), st.just(1.0)), min_size=1, max_size=6)),
            "default": draw(st.integers(0, 9)) == 0}
    if t.startswith("Chebyshev"):
        case["ripple"] = draw(st.one_of(st.sampled_from([3.0, 60.0, 1, 0.1, 40.0, -3.0, 6.0, 20]), st.floats(0.05, 90.0).map(lambda x: float(numpy.round(x, 2)))))
        if t == "Chebyshev1":
            case["ripple"] = draw(st.one_of(st.sampled_from([3.0, 1, 0.1, -3.0, 6.0, 0.5, 0.0, 0.01, 0.005, 0.001]), st.floats(0.05, 12.0).map(lambda x: float(numpy.round(x, 2)))))
    return case


def build(case):
    kwargs = {"cutoff_frequency": case["fc"], "order": case["order"], "highpass": case["hp"]}
    if "ripple" in case:
        kwargs["ripple"] = case["ripple"]
    return getattr(sumpf, case["t"] + "Filter")(**kwargs)


def bessel_reference(order, y):
    """The reverse Bessel polynomial in exact arithmetic"""
    c = [math.factorial(2 * order - k) // (2 ** (order - k) * math.factorial(k) * math.factorial(order - k)) for k in range(order + 1)]
    y = Fraction(y)
    real = imag = size = Fraction(0)
    for k, a in enumerate(c):
        v = a * y ** k
        size += abs(v)
        if k % 4 == 0:
            real += v
        elif k % 4 == 1:
            imag += v
        elif k % 4 == 2:
            real -= v
        else:
            imag -= v
    real, imag, size = real / c[0], imag / c[0], size / c[0]
    d = complex(float(real), float(imag))
    return 1.0 / d, float(size) / abs(d) / abs(d)


def reference(case, y):
    """The transfer function of the lowpass prototype for an angular frequency of y"""
    n = case["order"]
    t = case["t"]
    if t == "Bessel":
        return bessel_reference(n, float(y))
    if t == "Chebyshev1" and case["ripple"] == 0:
        t = "Butterworth"
    if t == "Butterworth":
        z, p, k = scipy.signal.buttap(n)
    elif t == "Chebyshev1":
        z, p, k = scipy.signal.cheb1ap(n, abs(case["ripple"]))
    else:
        z, p, k = scipy.signal.cheb2ap(n, abs(case["ripple"]))
    s = 1j * y
    value = 1.0 + 0j
    size = 1.0
    # unit gain at 0 Hz
    for a in z:
        value *= (s - a) / -a
        size *= (abs(s) + abs(a)) / abs(a)
    for a in p:
        value /= (s - a) / -a
        size /= abs((s - a) / a)
    return value, size


def magnitude(case, y):
    """The closed form of the squared magnitude"""
    n = case["order"]
    t = case["t"]
    if t == "Butterworth" or (t == "Chebyshev1" and case["ripple"] == 0):
        return 1.0 / (1.0 + y ** (2 * n))

    def T(x):
        return math.cos(n * math.acos(x)) if x <= 1.0 else math.cosh(n * math.acosh(x))
    if t == "Chebyshev1":
        e2 = 10.0 ** (abs(case["ripple"]) / 10.0) - 1.0
        m = 1.0 / (1.0 + e2 * T(y) ** 2)
        return m * (1.0 + e2) if n % 2 == 0 else m
    e2 = 1.0 / (10.0 ** (abs(case["ripple"]) / 10.0) - 1.0)
    t2 = T(1.0 / y) ** 2
    return e2 * t2 / (1.0 + e2 * t2)


def check_response(case, ctx):      # pylint: disable=too-many-branches
    fc, n, hp = case["fc"], case["order"], case["hp"]
    filter_ = build(case)
    what = f"{case['t']} {'highpass' if hp else 'lowpass'} of order {n}"
    equal(len(filter_), 1, f"{what}: number of channels")
    equal(filter_.labels(), ({"Chebyshev1": "Chebyshev 1", "Chebyshev2": "Chebyshev 2"}.get(case["t"], case["t"]),), f"{what}: labels")
    equal(filter_.order(), n, f"{what}: order")
    equal(filter_.cutoff_frequency(), fc, f"{what}: cutoff frequency")
    equal(filter_.is_highpass(), hp, f"{what}: is_highpass")
    if "ripple" in case:
        equal(filter_.ripple(), case["ripple"], f"{what}: ripple")
    f = [y * fc for y in case["f"]]
    response, = filter_(numpy.array(f))
    r = abs(case.get("ripple", 0.0))
    for x, h in zip(f, response):
        y = fc / x if hp else x / fc
        v, size = reference(case, y)
        if hp:
            v = numpy.conj(v)
        tol = 1e-10 * abs(v) + 1e-12 * n * size
        if case["t"] != "Bessel":
            tol = 1e-8 * abs(v) + 1e-11 * n * size
        if not abs(h - v) <= tol:
            fail(f"{what}: response at {x} Hz is {h} instead of {v}")
        if case["t"] != "Bessel":
            m = magnitude(case, y)
            if m > 1e-200 and abs(abs(h) ** 2 - m) > 1e-6 * m + 1e-10 * size ** 2:
                fail(f"{what}: squared magnitude at {x} Hz is {abs(h) ** 2} instead of {m}")
        # documented bounds
        if case["t"] == "Chebyshev1" and r:
            low, high = (1.0, 10.0 ** (r / 20.0)) if n % 2 == 0 else (10.0 ** (-r / 20.0), 1.0)
            if y < 1.0:
                require(low * (1 - 1e-6) <= abs(h) <= high * (1 + 1e-6), lambda: f"{what}: magnitude {abs(h)} in the pass band")
            elif y > 1.0:
                require(abs(h) <= low * (1 + 1e-6), lambda: f"{what}: magnitude {abs(h)} outside of the pass band")
        elif case["t"] == "Chebyshev2":
            level = 10.0 ** (-r / 20.0)
            if y > 1.0:
                require(abs(h) <= level * (1 + 1e-6), lambda: f"{what}: magnitude {abs(h)} in the stop band")
            elif y < 1.0:
                require(level * (1 - 1e-6) <= abs(h) <= 1 + 1e-6, lambda: f"{what}: magnitude {abs(h)} outside of the stop band")
    # the cutoff frequency
    at_cutoff = abs(complex(filter_(float(fc))[0]))
    expected = {"Butterworth": 2.0 ** -0.5, "Chebyshev1": 1.0 if n % 2 == 0 else 10.0 ** (-r / 20.0), "Chebyshev2": 10.0 ** (-r / 20.0)}.get(case["t"])
    if case["t"] == "Chebyshev1" and r == 0:
        expected = 2.0 ** -0.5
    if expected is not None:
        close(at_cutoff, expected, f"{what}: magnitude at the cutoff frequency", rtol=1e-7)
    # the static response
    zero = complex(filter_(0.0)[0])
    close(zero, 0.0 if hp else 1.0, f"{what}: response at 0 Hz", atol=1e-12)
    # sampled as a spectrum
    sampled = filter_.spectrum(resolution=f[0], length=3)
    again, = filter_(numpy.array([0.0, f[0], 2.0 * f[0]]))
    close(sampled.channels()[0], again, f"{what}: spectrum", rtol=1e-10)
    # highpass and lowpass
    other = build(dict(case, hp=not hp))
    mirrored, = other(numpy.array([fc * fc / x for x in f]))
    for h, m, x in zip(response, mirrored, f):
        y = fc / x if hp else x / fc
        size = reference(case, y)[1]
        require(abs(h - numpy.conj(m)) <= 1e-8 * abs(h) + 1e-10 * n * size, lambda: f"{what}: response at {x} Hz is {h}, but the mirrored response of its counterpart is {m}")
    # the representation
    restored = eval(repr(filter_), {"Filter": sumpf.Filter, "array": numpy.array})      # pylint: disable=eval-used
    close(restored(numpy.array(f))[0], response, f"{what}: response of the evaluated representation", rtol=1e-12)
    ctx.nontrivial_if(n > 1)
    ctx.label(case["t"], "highpass" if hp else "lowpass", "odd" if n % 2 else "even")
    if case["default"]:
        d = getattr(sumpf, case["t"] + "Filter")()
        defaults = dict(case, fc=1000.0, order=1, hp=False)
        if "ripple" in case:
            defaults["ripple"] = 3.0 if case["t"] == "Chebyshev1" else 60.0
        require(d == build(defaults), lambda: f"the default {case['t']} filter")


SUBS = [Sub("response", case_strategy(), check_response, quick=6000, rule="the order is greater than one"),
        defaults.sub("P15", 400)]
ASSUMPTIONS = ["scipy.signal's analog prototypes and the closed forms of the magnitudes; exact rational arithmetic for Bessel filters", "orders up to 50 (18 for Bessel filters)", "frequencies from 1/300 to 300 times the cutoff frequency"]
