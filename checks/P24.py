"""Window functions equal their definitions"""

from hypothesis import strategies as st
import numpy
import scipy.signal
import scipy.special
import sumpf
from vlib import defaults, gen
from vlib.core import Sub, close, equal, fail, nearly, require

# the coefficients of the cosine-sum windows from the literature
COSINE = {
    "HannWindow": (0.5, 0.5), "HammingWindow": (0.54, 0.46), "BlackmanWindow": (0.42, 0.5, 0.08),
    "BlackmanHarrisWindow": (0.35875, 0.48829, 0.14128, 0.01168),
    "NUTTALL3": (0.375, 0.5, 0.125), "NUTTALL3A": (0.40897, 0.5, 0.09103), "NUTTALL3B": (0.4243801, 0.4973406, 0.0782793),
    "NUTTALL4": (0.3125, 0.46875, 0.1875, 0.03125), "NUTTALL4A": (0.338946, 0.481973, 0.161054, 0.018027),
    "NUTTALL4B": (0.355768, 0.487396, 0.144232, 0.012604), "NUTTALL4C": (0.3635819, 0.4891775, 0.1365995, 0.0106411),
    "DEFAULT": (0.21557895, 0.41663158, 0.277263158, 0.083578947, 0.006947368),
    "SFT3F": (0.26526, 0.5, 0.23474), "SFT4F": (0.21706, 0.42103, 0.28294, 0.07897), "SFT5F": (0.1881, 0.36923, 0.28702, 0.13077, 0.02488),
    "SFT3M": (0.28235, 0.52105, 0.19659), "SFT4M": (0.241906, 0.460841, 0.255381, 0.041872), "SFT5M": (0.209671, 0.407331, 0.281225, 0.092669, 0.0091036),
    "FTNI": (0.2810639, 0.5208972, 0.1980399),
}
# these are normalised to a maximum of one
NORMALISED = {
    "FTHP": (1.0, 1.912510941, 1.079173272, 0.1832630879), "FTSRS": (1.0, 1.93, 1.29, 0.388, 0.028),
    "HFT70": (1.0, 1.90796, 1.07349, 0.18199), "HFT90D": (1.0, 1.942604, 1.340318, 0.440811, 0.043097),
    "HFT95": (1.0, 1.9383379, 1.3045202, 0.4028270, 0.0350665), "HFT116D": (1.0, 1.9575375, 1.4780705, 0.6367431, 0.1228389, 0.0066288),
    "HFT144D": (1.0, 1.96760033, 1.57983607, 0.81123644, 0.22583558, 0.02773848, 0.00090360),
    "HFT169D": (1.0, 1.97441842, 1.65409888, 0.95788186, 0.33673420, 0.06364621, 0.00521942, 0.00010599),
    "HFT196D": (1.0, 1.979280420, 1.710288951, 1.081629853, 0.448734314, 0.112376628, 0.015122992, 0.000871252, 0.000011896),
    "HFT223D": (1.0, 1.98298997309, 1.75556083063, 1.19037717712, 0.56155440797, 0.17296769663, 0.03233247087, 0.00324954578, 0.00013801040, 0.00000132725),
    "HFT248D": (1.0, 1.985844164102, 1.791176438506, 1.282075284005, 0.667777530266, 0.240160796576, 0.056656381764, 0.008134974479, 0.000624544650, 0.000019808998, 0.000000132974),
}
for _name, _a in NORMALISED.items():
    COSINE[_name] = tuple(x / sum(_a) for x in _a)
NUTTALL = [n for n in COSINE if n.startswith("NUTTALL")]
FLATTOP = [n for n in COSINE if n[0:3] in ("DEF", "SFT", "FTN", "FTH", "FTS", "HFT")]
LABELS = {"RectangularWindow": "Rectangular window", "BartlettWindow": "Bartlett window", "HannWindow": "Hann window", "HammingWindow": "Hamming window",
          "BlackmanWindow": "Blackman window", "KaiserWindow": "Kaiser window", "BartlettHannWindow": "Bartlett-Hann window", "BlackmanHarrisWindow": "Blackman-Harris window",
          "BohmanWindow": "Bohman window", "DolphChebyshevWindow": "Dolph-Chebyshev window", "ExponentialWindow": "Exponential window",
          "FlatTopWindow": "Flat top window", "GaussianWindow": "Gaussian window", "NuttallWindow": "Nuttall window", "ParzenWindow": "Parzen window",
          "SlepianWindow": "Slepian window"}
PARAMETERS = {"KaiserWindow": ("beta", 9.4248, [0.0, 0.5, 2.0, 6.0, 9.4248, 14.0, 30.0]),
              "SlepianWindow": ("beta", 9.4248, [0.7, 1.5, 3.0, 6.0, 9.4248]),
              "DolphChebyshevWindow": ("attenuation", 150.0, [50.0, 80.0, 100.0, 150.0]),
              "ExponentialWindow": ("decay", 100.0, [0.0, 1.0, 6.0, 20.0, 60.0, 100.0]),
              "GaussianWindow": ("standard_deviation", 1.0, [0.1, 0.3, 0.5, 1.0, 2.5])}


def definition(case, n):
    """The window function for ``n`` samples in its symmetric variant"""
    name = case["class"]
    if n <= 1:
        if case.get("function") in NORMALISED:  # the convention of the package: the normalisation is applied to the single sample
            return numpy.ones(n) / sum(NORMALISED[case["function"]])
        return numpy.ones(n)
    k = numpy.arange(n)
    x = k / (n - 1)                     # from 0 to 1
    d = numpy.abs(2 * k - (n - 1)) / (n - 1)    # the distance to the center from 0 to 1
    key = case.get("function") or name
    if key in COSINE:
        return sum((-1) ** i * a * numpy.cos(2 * numpy.pi * i * x) for i, a in enumerate(COSINE[key]))
    if name == "RectangularWindow":
        return numpy.ones(n)
    if name == "BartlettWindow":
        return 1.0 - d
    if name == "KaiserWindow":
        return scipy.special.i0(case["p"] * numpy.sqrt(numpy.maximum(1 - d ** 2, 0.0))) / scipy.special.i0(case["p"])
    if name == "BartlettHannWindow":
        return 0.62 - 0.48 * numpy.abs(x - 0.5) + 0.38 * numpy.cos(2 * numpy.pi * (x - 0.5))
    if name == "BohmanWindow":
        return (1 - d) * numpy.cos(numpy.pi * d) + numpy.sin(numpy.pi * d) / numpy.pi
    if name == "ExponentialWindow":
        return 10.0 ** (-case["p"] / 20.0 * d)
    if name == "GaussianWindow":
        return numpy.exp(-0.5 * (d / case["p"]) ** 2)
    if name == "ParzenWindow":
        c = numpy.abs(k - (n - 1) / 2) / (n / 2)
        return numpy.where(numpy.abs(k - (n - 1) / 2) <= (n - 1) / 4, 1 - 6 * c ** 2 + 6 * c ** 3, 2 * (1 - c) ** 3)
    if name == "DolphChebyshevWindow":
        if n <= 2:
            return numpy.ones(n)
        w = scipy.signal.windows.chebwin(n, at=case["p"])
        return w / w[n // 2]
    if name == "SlepianWindow":
        if n <= 2:
            return numpy.ones(n)
        return scipy.signal.windows.dpss(n, NW=case["p"] / numpy.pi, norm="subsample")
    raise AssertionError(name)


def resolve(i, n):
    i = int(round(i * n)) if isinstance(i, float) else i
    return i + n if i < 0 else i


def reference(case):
    n, symmetric = case["n"], case["sym"]
    plateau = resolve(case["plateau"], n) if n else 0
    if plateau == 0:
        return definition(case, n) if symmetric else definition(case, n + 1)[0:n]
    fade = (n - plateau) // 2
    w = definition(case, 2 * fade if symmetric else 2 * fade + 1)
    return numpy.concatenate((w[0:fade], numpy.ones(n - 2 * fade), w[fade:2 * fade]))


def make(case):
    kwargs = {"plateau": case["plateau"], "sampling_rate": case["sr"], "length": case["n"], "symmetric": case["sym"]}
    cls = getattr(sumpf, case["class"])
    if "p" in case:
        kwargs[PARAMETERS[case["class"]][0]] = case["p"]
    if "function" in case:
        kwargs["function"] = getattr(cls.functions, case["function"])
    return cls(**kwargs)


@st.composite
def windows(draw, minimum=0, maximum=70, classes=tuple(sorted(LABELS))):
    name = draw(st.sampled_from(classes))
    n = draw(st.one_of(st.integers(minimum, min(maximum, 9)), st.integers(minimum, maximum)))
    case = {"class": name, "sr": draw(gen.sampling_rate), "sym": draw(st.booleans())}
    if name in PARAMETERS:
        values = PARAMETERS[name][2]
        case["p"] = draw(st.one_of(st.sampled_from(values), st.floats(min(values), max(values)).map(lambda v: round(v, 3))))
        if name == "SlepianWindow":
            case["p"] = max(case["p"], 0.5)
    if name in ("NuttallWindow", "FlatTopWindow"):
        case["function"] = draw(st.sampled_from(NUTTALL if name == "NuttallWindow" else FLATTOP))
    plateau = draw(st.one_of(st.just(0), st.integers(0, n)))
    form = draw(st.sampled_from(["int", "float", "negative", "negative float"]))
    if n and form == "float":
        plateau = plateau / n
    elif n and plateau and form == "negative":
        plateau = plateau - n
    elif n and plateau and form == "negative float":
        plateau = (plateau - n) / n
    if plateau in (0, n) and draw(st.booleans()) and isinstance(plateau, int):
        plateau = 0.0 if plateau == 0 else plateau
    if name == "SlepianWindow":     # the definition requires, that the bandwidth is lower than the number of samples
        resolved = resolve(plateau, n) if n else 0
        m = n + (not case["sym"]) if resolved == 0 else 2 * ((n - resolved) // 2) + (not case["sym"])
        if m > 2:
            case["p"] = min(case["p"], round(0.45 * 3.14 * m, 2))
    case.update(n=n, plateau=plateau)
    return case


def check_samples(case, ctx):
    w = make(case)
    what = f"{case}"
    gen.check_meta(w, what, cls=getattr(sumpf, case["class"]), sr=case["sr"], offset=0, labels=(LABELS[case["class"]],), shape=(1, case["n"]))
    equal(w.symmetric(), case["sym"], f"{what}: symmetric()")
    equal(w.plateau(), resolve(case["plateau"], case["n"]) if case["n"] else 0, f"{what}: plateau()")
    expected = reference(case)
    x = w.channels()[0]
    # the reference for DPSS windows is the same iterative algorithm, so it is as precise as the others
    close(x, expected, f"{what}: samples", rtol=1e-8, atol=2e-9)
    p = w.plateau()
    n = case["n"]
    fade = (n - p) // 2
    if p:
        equal(bool(numpy.all(x[fade:fade + p] == 1.0)), True, f"{what}: the plateau is constantly one")
    if case["sym"]:
        close(x[::-1], x, f"{what}: symmetry", rtol=1e-8, atol=1e-9)
    elif p == 0 and n > 1:
        close(x[1:][::-1], x[1:], f"{what}: symmetry of the periodic window", rtol=1e-8, atol=1e-9)
    ctx.nontrivial_if(n > 2)
    ctx.label(case["class"], "plateau" if p else "no plateau", "symmetric" if case["sym"] else "periodic", "odd" if n % 2 else "even")
    # the window is usable like any other signal
    equal(make(case), w, f"{what}: the same parameters again")


@st.composite
def overlap_cases(draw):
    case = draw(windows(minimum=2, maximum=40))
    n = case["n"]
    k = draw(st.one_of(st.integers(0, n), st.integers(0, n), st.sampled_from([0, 1, n])))
    form = draw(st.sampled_from(["int", "float", "negative", "negative float", "array", "list", "tuple", "floats"]))
    if form == "float":
        v = k / n
    elif form == "negative":
        v = k - n if k < n else k
    elif form == "negative float":
        v = (k - n) / n if 0 < k < n else k / n
    elif form in ("array", "list", "tuple"):
        v = draw(st.lists(st.integers(0, n), min_size=1, max_size=5))
    elif form == "floats":
        v = [x / n for x in draw(st.lists(st.integers(0, n), min_size=1, max_size=5))]
    else:
        v = k
    case["overlap"] = v
    case["form"] = form
    case["oversampling"] = draw(st.integers(2, 16))
    # overlaps, for which something is computed with the same window before that
    case["before"] = draw(st.lists(st.one_of(st.sampled_from([0, 0.0, 1, 1.0, -1, -1.0, 0.5]), st.integers(0, n)), max_size=3))
    return case


def overlapping(w, step, power=1):
    """the sum of all windows, that are shifted by multiples of the step, in the range of one window"""
    n = len(w)
    result = numpy.zeros(n)
    shift = -((n - 1) // step) * step
    while shift < n:
        a, b = max(0, shift), min(n, shift + n)
        result[a:b] += w[a - shift:b - shift] ** power
        shift += step
    return result


def check_overlap(case, ctx):
    w = make(case)
    x = numpy.array(w.channels()[0])
    n = len(x)
    given = case["overlap"]
    many = isinstance(given, list)
    ks = [resolve(v, n) for v in (given if many else [given])]
    argument = given
    if case["form"] in ("array", "floats"):
        argument = numpy.array(given)
    elif case["form"] == "tuple":
        argument = tuple(given)
    what = f"{case}"
    size = numpy.abs(x).sum()
    with numpy.errstate(all="ignore"):
        for v in case.get("before", ()):
            for m in ("scaling_factor", "amplitude_flatness", "power_flatness", "overlap_correlation"):
                getattr(w, m)(v)
        scale, flat, power, correlation = (getattr(w, m)(argument) for m in ("scaling_factor", "amplitude_flatness", "power_flatness", "overlap_correlation"))
    for m, y in (("scaling_factor", scale), ("amplitude_flatness", flat), ("power_flatness", power), ("overlap_correlation", correlation)):
        if many:
            equal(numpy.shape(y), (len(given),), f"{what}: shape of {m}")
        else:
            equal(numpy.shape(y), (), f"{what}: shape of {m}")
    for i, k in enumerate(ks):
        s, f, p, c = ((y[i] if many else y) for y in (scale, flat, power, correlation))
        text = f"{what}: overlap {k}"
        energy = (x ** 2).sum()
        if energy == 0.0:
            equal(c, 1.0, f"{text}: overlap_correlation of a zero window")
        else:
            close(c, (x[0:k] * x[n - k:]).sum() / energy, f"{text}: overlap_correlation", rtol=1e-9, atol=1e-12)
        if k == n:
            equal(s, 0.0, f"{text}: scaling_factor")
            equal(f, 1.0, f"{text}: amplitude_flatness")
            equal(p, 1.0, f"{text}: power_flatness")
            continue
        added = overlapping(x, n - k)
        if added.sum() > 1e-6 * size and size > 1e-12:
            close(s, n / added.sum(), f"{text}: scaling_factor", rtol=1e-9 * size / added.sum())
            ctx.nontrivial_if(k > 0)
            if added.max() > 1e-9:
                close(f, added.min() / added.max(), f"{text}: amplitude_flatness", rtol=1e-8, atol=1e-9)
        squared = overlapping(x, n - k, 2)
        if squared.max() > 1e-15:
            close(p, squared.min() / squared.max(), f"{text}: power_flatness", rtol=1e-8, atol=1e-9)
        ctx.label("overlap > 50%" if 2 * k > n else "overlap <= 50%")


def check_spectral(case, ctx):
    w = make(case)
    x = numpy.array(w.channels()[0])
    n = len(x)
    what = f"{case}"
    total = x.sum()
    if not (total > 1e-3 and numpy.all(numpy.isfinite(x))):
        return
    k = numpy.arange(n)

    def magnitude(b):     # the magnitude at a (fractional) frequency bin
        return abs((x * numpy.exp(-2j * numpy.pi * b * k / n)).sum())

    close(w.scalloping_loss(), magnitude(0.5) / abs(total), f"{what}: scalloping_loss", rtol=1e-9, atol=1e-11)
    # the bandwidth: linear interpolation between the bins of the padded spectrum, where the magnitude drops by 3dB for the first time
    os = case["oversampling"]
    threshold = abs(total) / numpy.sqrt(2.0)
    last = abs(total)
    for i in range(1, os * n // 2 + 1):
        m = magnitude(i / os)
        if abs(m - threshold) < 1e-9 * threshold:
            return  # the decision, in which interval the threshold is crossed, depends on rounding errors
        if m < threshold:
            crossing = i - 1 + (threshold - last) / (m - last)
            nearly(w.bandwidth(oversampling=os), 2.0 * crossing / os * case["sr"] / n, f"{what}: bandwidth", rtol=1e-7)
            if os == 8:
                nearly(w.bandwidth(), w.bandwidth(8), f"{what}: default oversampling")
            ctx.nontrivial_if(True)
            ctx.label("crossing in bin > 1" if i > 1 else "crossing in bin 1")
            break
        last = m
    # the recommended overlap
    recommended = w.recommended_overlap()
    require(0 <= recommended < n and int(recommended) == recommended, f"{what}: recommended_overlap {recommended}")
    if n <= 24:
        def criterion(o):
            added = overlapping(x, n - o)
            return added.min() / added.max() - (x[0:o] * x[n - o:]).sum() / (x ** 2).sum()
        values = [criterion(o) for o in range(n)]
        if numpy.all(numpy.isfinite(values)):
            close(values[int(recommended)], max(values), f"{what}: recommended_overlap {recommended} instead of {int(numpy.argmax(values))}", atol=1e-9)
            ctx.label("recommended overlap")


SUBS = [
    Sub("samples", windows(), check_samples, quick=4000, rule="length > 2"),
    Sub("overlap", overlap_cases(), check_overlap, quick=3000, rule="overlap > 0 and window with positive sum"),
    Sub("spectral", overlap_cases(), check_spectral, quick=1200, rule="the -3dB crossing exists"),
    defaults.sub("P24", 400),
]
