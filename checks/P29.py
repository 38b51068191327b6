"""Derived views are consistent with data and axes"""

import math

from hypothesis import strategies as st
import numpy
import sumpf
from vlib import gen, large
from vlib.core import Sub, close, equal, nearly, require, same_array
from vlib.gen import Snapshot


def axis(actual, expected, what):
    """compares an axis; the scale is the largest value of the axis"""
    expected = numpy.array(expected, dtype=float)
    require(isinstance(actual, numpy.ndarray) and actual.ndim == 1, f"{what}: {type(actual)}")
    close(actual, expected, what, rtol=1e-12, scale=float(numpy.abs(expected).max()) if expected.size else 0.0)
    if expected.size > 1:
        require((numpy.diff(actual) > 0).all(), f"{what}: the values do not increase")


def check_views(x, what):
    """checks all derived views of the object"""
    snapshot = Snapshot(x)
    c = x.channels()
    equal(x.shape(), c.shape, f"{what}: shape()")
    equal(x.length(), c.shape[-1], f"{what}: length()")
    equal(len(x), c.shape[0], f"{what}: number of channels")
    if isinstance(x, (sumpf.Signal, sumpf.Spectrogram)):
        nearly(x.duration(), c.shape[-1] / x.sampling_rate(), f"{what}: duration()")
        axis(x.time_samples(), [(x.offset() + i) / x.sampling_rate() for i in range(c.shape[-1])], f"{what}: time_samples()")
    if isinstance(x, (sumpf.Spectrum, sumpf.Spectrogram)):
        bins = c.shape[1]
        if isinstance(x, sumpf.Spectrogram):
            equal(x.number_of_frequencies(), bins, f"{what}: number_of_frequencies()")
        if bins > 0:
            nearly(x.maximum_frequency(), (bins - 1) * x.resolution(), f"{what}: maximum_frequency()")
        axis(x.frequency_samples(), [i * x.resolution() for i in range(bins)], f"{what}: frequency_samples()")
        flat = [complex(v) for v in c.ravel()]
        re, im, magnitude, phase = x.real(), x.imaginary(), x.magnitude(), x.phase()
        for name, view in (("real", re), ("imaginary", im), ("magnitude", magnitude), ("phase", phase)):
            require(isinstance(view, numpy.ndarray) and not numpy.iscomplexobj(view), f"{what}: {name}() is {type(view)}")
            equal(view.shape, c.shape, f"{what}: shape of {name}()")
        same_array(re.ravel(), numpy.array([v.real for v in flat]), f"{what}: real()")
        same_array(im.ravel(), numpy.array([v.imag for v in flat]), f"{what}: imaginary()")
        close(magnitude.ravel(), numpy.array([math.hypot(v.real, v.imag) for v in flat]), f"{what}: magnitude()", rtol=1e-14)
        close(phase.ravel(), numpy.array([math.atan2(v.imag, v.real) for v in flat]), f"{what}: phase()", rtol=1e-14)
        require((magnitude >= 0).all() and (numpy.abs(phase) <= math.pi).all(), f"{what}: range of magnitude() and phase()")
        close(magnitude * numpy.exp(1j * phase), numpy.asarray(c, dtype=complex), f"{what}: magnitude() * exp(j * phase())", rtol=1e-12)
        same_array(re + 1j * im, numpy.asarray(c, dtype=complex), f"{what}: real() + j * imaginary()")
        close(abs(x).channels(), magnitude, f"{what}: magnitude() compared to abs()", rtol=1e-14)
        conjugate = x.conjugate()
        equal(type(conjugate).__name__, type(x).__name__ if type(x) in (sumpf.Spectrum, sumpf.Spectrogram) else type(conjugate).__name__, f"{what}: the type of the conjugate")
        same_array(conjugate.channels(), numpy.array([v.conjugate() for v in flat]).reshape(c.shape), f"{what}: conjugate()")
        equal(conjugate.labels(), x.labels(), f"{what}: labels of the conjugate")
        equal(conjugate.resolution(), x.resolution(), f"{what}: resolution of the conjugate")
        if isinstance(x, sumpf.Spectrogram):
            equal((conjugate.sampling_rate(), conjugate.offset()), (x.sampling_rate(), x.offset()), f"{what}: sampling rate and offset of the conjugate")
        require(conjugate.conjugate() == x, f"{what}: the conjugate of the conjugate")
        close((x * conjugate).channels(), magnitude.astype(complex) ** 2, f"{what}: the product with the conjugate", rtol=1e-12, scale=float((magnitude ** 2).max()) if magnitude.size else 0.0)
    snapshot.check(f"{what}: after computing the derived views")


# ---------------------------------------------------------------------------
# arbitrary objects and results of operations
# ---------------------------------------------------------------------------

any_length = st.one_of(st.integers(0, 3), st.integers(0, 60), st.integers(60, 900))
wide_offsets = st.one_of(gen.offsets, st.integers(-10 ** 6, 10 ** 6))

operations = st.one_of(
    st.tuples(st.sampled_from(["neg", "abs", "twice", "inverse", "conjugate", "views", "reverse"])),
    st.tuples(st.sampled_from(["shift", "pad", "crop", "from", "until", "bins", "channel"]), st.integers(0, 30)),
    st.tuples(st.sampled_from(["shift"]), st.integers(-30, 30)),
    st.tuples(st.sampled_from(["shift crop", "shift pad", "shift cycle"]), st.integers(-10, 10)),
)


@st.composite
def program_cases(draw):
    x = draw(st.one_of(gen.signals(lengths=any_length, offset=wide_offsets), gen.spectrums(lengths=any_length), gen.spectrograms(bins=(0, 8), lengths=(0, 20), offset=wide_offsets)))
    return {"x": x, "ops": draw(st.lists(operations, max_size=4))}


def apply(x, op):
    """Applies an operation and returns the result and the expected modification of the axes as
    tuple (offset of the result, function for selecting the time axis, function for selecting the frequency axis)"""
    kind, *args = op
    signal, spectrum, spectrogram = (isinstance(x, c) for c in (sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram))
    n = args[0] if args else 0
    if kind == "neg":
        return -x
    if kind == "abs":
        return abs(x)
    if kind == "twice":
        return x + x
    if kind == "inverse":
        if spectrogram or (signal and x.length() < 2) or x.length() == 0:
            return x
        return ~x
    if kind == "conjugate":
        return x if signal else x.conjugate()
    if kind == "reverse":
        return reversed(x) if signal else x
    if kind in ("shift", "shift crop", "shift pad", "shift cycle"):
        if spectrum:
            return x
        modes = type(x).shift_modes
        mode = {"shift": modes.OFFSET, "shift crop": modes.CROP, "shift pad": modes.PAD, "shift cycle": modes.CYCLE}[kind]
        if kind == "shift crop" and abs(n) > x.length():
            return x
        result = x.shift(n, mode)
        if kind == "shift":
            axis(result.time_samples(), [(x.offset() + n + i) / x.sampling_rate() for i in range(x.length())], f"time_samples() after shifting by {n}")
        return result
    if kind == "pad":
        return x.pad(x.length() + n)
    if kind == "crop":
        return x.pad(max(0, x.length() - n))
    if kind in ("from", "until"):
        n = min(n, x.length())
        s = slice(n, None) if kind == "from" else slice(0, n)
        result = x[:, :, s] if spectrogram else x[:, s]
        if spectrum:
            if kind == "until":
                axis(result.frequency_samples(), x.frequency_samples()[s], f"the frequency samples of the slice {s}")
        else:
            axis(result.time_samples(), x.time_samples()[s], f"the time samples of the slice {s}")
        return result
    if kind == "bins":
        if not spectrogram:
            return x
        n = min(n, x.number_of_frequencies())
        result = x[:, 0:n]
        axis(result.frequency_samples(), x.frequency_samples()[0:n], f"the frequency samples of the first {n} frequencies")
        axis(result.time_samples(), x.time_samples(), f"the time samples of the first {n} frequencies")
        return result
    if kind == "channel":
        return x[n % len(x)]
    return x


def check_program(case, ctx):
    x = gen.make(case["x"])
    check_views(x, f"a {case['x']['t']}")
    sizes = {x.channels().size}
    with numpy.errstate(all="ignore"):
        for i, op in enumerate(case["ops"]):
            x = apply(x, op)
            if not numpy.isfinite(x.channels()).all() or (numpy.abs(x.channels()) > 1e100).any():
                break       # e.g. after inverting zeros
            check_views(x, f"a {case['x']['t']} after the operations {case['ops'][0:i + 1]}")
            sizes.add(x.channels().size)
            ctx.label(op[0])
    ctx.nontrivial_if(max(sizes) > 3)
    ctx.label(case["x"]["t"])


# ---------------------------------------------------------------------------
# the axes of transformed data
# ---------------------------------------------------------------------------


@st.composite
def transform_cases(draw):
    return {"x": draw(gen.signals(lengths=st.one_of(st.integers(2, 12), st.integers(2, 300)), offset=wide_offsets)), "window": draw(st.integers(1, 20)), "hop": draw(st.integers(1, 40)), "pad": draw(st.booleans())}


def check_transform(case, ctx):
    x = gen.make(case["x"])
    n, sr = x.length(), x.sampling_rate()
    spectrum = x.fourier_transform()
    check_views(spectrum, f"the spectrum of {n} samples")
    nearly(spectrum.resolution() * x.duration(), 1.0, "resolution of the spectrum * duration of the signal")
    axis(spectrum.frequency_samples(), numpy.fft.rfftfreq(n, 1.0 / sr), f"the frequency samples of a spectrum of {n} samples")
    if n % 2 == 0:
        nearly(spectrum.maximum_frequency(), sr / 2.0, "the maximum frequency of the spectrum")
        back = spectrum.inverse_fourier_transform()
        check_views(back, "the inverse Fourier transform")
        nearly(back.duration(), x.duration(), "the duration after the inverse transform")
        axis(back.time_samples(), [i / sr for i in range(n)], "the time samples after the inverse transform")
    w = 2 * (1 + (case["window"] - 1) % max(1, n // 2))
    if w > n:
        ctx.label("window longer than the signal")
        return
    hop = max(1, min(case["hop"], w))
    spectrogram = x.short_time_fourier_transform(window=w, overlap=w - hop, pad=case["pad"])
    check_views(spectrogram, f"the spectrogram of {n} samples")
    axis(spectrogram.frequency_samples(), numpy.fft.rfftfreq(w, 1.0 / sr), f"the frequency samples of a spectrogram with a window of {w} samples")
    nearly(spectrogram.sampling_rate() * hop, sr, "the sampling rate of the spectrogram")
    require(spectrogram.length() > 0, "empty spectrogram")
    if case["pad"]:
        # the samples of the spectrogram cover the signal; the offset is quantized to the hop size
        times = spectrogram.time_samples()
        require(abs(times[0] - x.time_samples()[0]) <= 0.5 * w / sr + hop / sr, f"the spectrogram starts at {times[0]}, the signal at {x.time_samples()[0]}")
        require(times[-1] >= x.time_samples()[-1] - (0.5 * w + hop) / sr, f"the spectrogram ends at {times[-1]}, the signal at {x.time_samples()[-1]}")
    ctx.nontrivial_if(n > 4)
    ctx.label("even" if n % 2 == 0 else "odd")


# ---------------------------------------------------------------------------
# special values
# ---------------------------------------------------------------------------

PARTS = [0.0, -0.0, 1.0, -1.0, 1e-300, -1e-300, 1e150, 5e-324, math.inf, -math.inf, math.nan]


@st.composite
def special_cases(draw):
    n = draw(st.integers(1, 12))
    return {"re": draw(st.lists(st.integers(0, len(PARTS) - 1), min_size=n, max_size=n)), "im": draw(st.lists(st.integers(0, len(PARTS) - 1), min_size=n, max_size=n)), "kind": draw(st.sampled_from(["Spectrum", "Spectrogram"]))}


def check_special(case, ctx):
    c = numpy.empty(len(case["re"]), dtype=complex)
    c.real = [PARTS[i] for i in case["re"]]
    c.imag = [PARTS[i] for i in case["im"]]
    x = sumpf.Spectrum(channels=c.reshape(1, -1)) if case["kind"] == "Spectrum" else sumpf.Spectrogram(channels=c.reshape(1, -1, 1))
    what = f"{case['kind']} with {c.tolist()}"
    same_array(x.real().ravel(), c.real, f"{what}: real()")
    same_array(x.imaginary().ravel(), c.imag, f"{what}: imaginary()")
    close(x.magnitude().ravel(), numpy.array([math.hypot(v.real, v.imag) for v in c]), f"{what}: magnitude()", rtol=1e-14, atol=1e-323)
    phase = x.phase().ravel()
    close(phase, numpy.array([math.atan2(v.imag, v.real) for v in c]), f"{what}: phase()", rtol=1e-14)
    for v, p in zip(c, phase):
        if v.imag == 0 and v.real < 0:
            equal(math.copysign(1.0, p), math.copysign(1.0, v.imag), f"{what}: the sign of the phase of {v}")
    conjugate = x.conjugate().channels().ravel()
    same_array(conjugate.real, c.real, f"{what}: real part of the conjugate")
    same_array(conjugate.imag, -c.imag, f"{what}: imaginary part of the conjugate")
    ctx.nontrivial_if(len(c) > 1)


SUBS = [
    Sub("program", program_cases(), check_program, quick=6000, rule="objects with more than three values"),
    Sub("transform", transform_cases(), check_transform, quick=2500, rule="signals with more than four samples"),
    Sub("special", special_cases(), check_special, quick=1500, rule="more than one value"),
    large.sub("P29"),
]
