"""Strategies for cases (plain JSON data) and builders, that make sumpf objects from them."""

import numpy
from hypothesis import strategies as st
import sumpf

# ---------------------------------------------------------------------------
# scalars
# ---------------------------------------------------------------------------

small_float = st.one_of(st.integers(-8, 8).map(float),
                        st.floats(-10.0, 10.0, allow_nan=False, allow_infinity=False).map(lambda x: float(numpy.round(x, 4))))
nice_float = st.one_of(small_float,
                       st.floats(-1e6, 1e6, allow_nan=False, allow_infinity=False),
                       st.floats(-1e-3, 1e-3, allow_nan=False, allow_infinity=False))
_usual_rates = [48000.0, 44100.0, 1.0, 2.0, 100.0, 8000.0, 192000.0, 96000.0, 44100, 48000, 1, 7]
_usual_resolutions = [1.0, 0.5, 2.0, 10.0, 23.4375, 0.1, 1000.0, 1, 3]
sampling_rate = st.one_of(st.sampled_from(_usual_rates * 2 + [1.23456789e-6, 7.7e-3, 1e7 / 3.0, 2.5e9]),
                          st.floats(0.1, 1e5).map(lambda x: float(numpy.round(x, 3))))
audio_rate = sampling_rate.filter(lambda x: x < 1e8)    # the headers of audio files have 32 bits for the bytes per second
resolution = st.one_of(st.sampled_from(_usual_resolutions * 2 + [3.456789e-7, 1.0 / 3.0, 48000.0 / 65537.0, 1.1e6]),
                       st.floats(0.01, 1e3).map(lambda x: float(numpy.round(x, 3))))
seed = st.integers(0, 2 ** 31 - 1)
label_text = st.one_of(st.sampled_from(["", "one", "two", "Left", "Label 3"]),
                       st.text(alphabet="abc XYZ019_-äß€\"'\\,", max_size=6))


def enc(x):
    """encodes a number for JSON"""
    if isinstance(x, complex):
        return {"re": x.real, "im": x.imag}
    return x


def dec(x):
    if isinstance(x, dict):
        return complex(x["re"], x["im"])
    return x


BIG = (33, 64, 100, 127, 129, 256, 257, 1000, 1024, 1025, 2048, 2049, 4097)


def sizes(lo, hi, big=BIG, rare=25):
    """mostly small sizes, but sometimes such, at which an implementation might switch to another algorithm"""
    return st.integers(1, rare).flatmap(lambda k: st.sampled_from(big) if k == rare else st.integers(lo, hi))


def some(lo, hi, many=(4, 5, 6, 8, 9, 17), rare=20):
    """numbers of channels: mostly few, but sometimes many"""
    return sizes(lo, hi, many, rare)


complex_number = st.tuples(small_float, small_float).map(lambda t: {"re": t[0], "im": t[1]})


# ---------------------------------------------------------------------------
# arrays
# ---------------------------------------------------------------------------

KINDS = ("normal", "normal", "uniform", "int", "sparse", "decay", "onepole")
LAYOUTS = ("C", "C", "C", "readonly", "F", "strided", "reversed")


@st.composite
def arrays(draw, shape, cplx=False, kinds=KINDS, explicit=24, layouts=LAYOUTS, scales=(1.0, 1.0, 1.0, 1e-4, 1e4), integers=True):
    """A recipe for an array with the given shape"""
    size = int(numpy.prod(shape))
    r = {"shape": [int(s) for s in shape]}
    if size <= explicit and draw(st.integers(0, 2)) == 0:
        r["re"] = draw(st.lists(small_float, min_size=size, max_size=size))
        if cplx:
            r["im"] = draw(st.lists(small_float, min_size=size, max_size=size))
    else:
        r["seed"] = draw(seed)
        r["kind"] = draw(st.sampled_from(kinds))
        r["scale"] = draw(st.sampled_from(scales))
        if cplx:
            r["c"] = 1
    layout = draw(st.sampled_from(layouts))
    if layout != "C":
        r["layout"] = layout
    if cplx and integers and draw(st.integers(1, 12)) == 12:     # real values instead of complex ones
        r.pop("im", None)
        r.pop("c", None)
        if draw(st.booleans()):
            r["dt"] = draw(st.sampled_from(["i8", "i4"]))
    elif cplx and draw(st.integers(1, 5)) == 5:     # complex numbers without a real or an imaginary part
        r["only"] = draw(st.sampled_from(["real", "imag"]))
    elif integers and not cplx and draw(st.integers(1, 12)) == 12:
        r["dt"] = draw(st.sampled_from(["i8", "i8", "i4"]))
    return r


WIDE = ({"dt": "i2", "f": 20000, "limits": (-32767, 32767)}, {"dt": "i4", "f": 10 ** 9, "limits": (1 - 2 ** 31, 2 ** 31 - 1)}, {"dt": "i1", "f": 100, "limits": (-127, 127)})


@st.composite
def wide_integers(draw, recipe, rare=8):
    """occasionally replaces the samples with integers, that make use of the range of their data type, as those of sound cards or audio files do"""
    if draw(st.integers(1, rare)) == rare:
        recipe.update(draw(st.sampled_from(WIDE)))


def make_array(r):
    """Creates the array, that is described by the recipe"""
    shape = tuple(r["shape"])
    if "re" in r:
        a = numpy.array(r["re"], dtype=numpy.float64).reshape(shape)
        if "im" in r:
            a = a + 1j * numpy.array(r["im"], dtype=numpy.float64).reshape(shape)
    else:
        rng = numpy.random.Generator(numpy.random.PCG64(r["seed"]))

        def one():
            kind = r["kind"]
            if kind == "uniform":
                x = rng.uniform(-1.0, 1.0, shape)
            elif kind == "positive":
                x = rng.uniform(0.1, 2.0, shape)
            elif kind == "int":
                x = rng.integers(-4, 5, shape).astype(float)
            elif kind == "sparse":
                x = rng.normal(size=shape) * (rng.uniform(size=shape) < 0.3)
            elif kind == "decay":
                x = rng.normal(size=shape) * numpy.exp(-5.0 * numpy.arange(shape[-1]) / max(shape[-1], 1))
            elif kind == "onepole":
                x = numpy.cumsum(rng.normal(size=shape), axis=-1) * 0.2 + 1.0
            else:
                x = rng.normal(size=shape)
            return x * r.get("scale", 1.0)
        a = one()
        if r.get("c"):
            a = a + 1j * one()
    if r.get("only") == "real":
        a = a.real + 0j
    elif r.get("only") == "imag":
        a = 1j * a.imag
    if "dt" in r:
        a = numpy.clip(numpy.rint(a * r.get("f", 1)), *r.get("limits", (-50, 50))).astype(r["dt"])
    layout = r.get("layout", "C")
    if layout == "readonly":
        a.flags.writeable = False
    elif layout == "F":
        a = numpy.asfortranarray(a)
    elif layout == "strided":
        big = numpy.full(tuple(2 * s for s in shape), 77.0, dtype=a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in shape)]
        view[...] = a
        a = view
    elif layout == "reversed":
        big = numpy.array(a[..., ::-1])
        a = big[..., ::-1]
    return a


def labels(n):
    return st.one_of(st.just(None),
                     st.lists(label_text, min_size=n, max_size=n),
                     st.lists(label_text, min_size=0, max_size=n + 1))


# ---------------------------------------------------------------------------
# sampled data
# ---------------------------------------------------------------------------

offsets = st.one_of(st.just(0), st.integers(-6, 6), st.integers(-40, 40))
far_offsets = st.one_of(offsets, offsets, st.sampled_from([-40000, 40000, 100000, -100000, 2 ** 24 + 1, -2 ** 24 - 1, 2 ** 31, -2 ** 31 - 1, 10 ** 12 + 7, -10 ** 12 - 7]))   # not for binary operations



@st.composite
def signals(draw, channels=(1, 3), lengths=(0, 12), offset=offsets, sr=sampling_rate, cplx=False, **kw):
    c = draw(some(*channels) if channels[0] < channels[1] else st.just(channels[0])) if isinstance(channels, tuple) else draw(channels)
    n = draw(st.integers(*lengths)) if isinstance(lengths, tuple) else draw(lengths)
    return {"t": "Signal", "a": draw(arrays((c, n), cplx=cplx, **kw)), "sr": draw(sr), "o": draw(offset), "l": draw(labels(c))}


@st.composite
def spectrums(draw, channels=(1, 3), lengths=(0, 10), res=resolution, cplx=True, **kw):
    c = draw(some(*channels) if channels[0] < channels[1] else st.just(channels[0])) if isinstance(channels, tuple) else draw(channels)
    n = draw(st.integers(*lengths)) if isinstance(lengths, tuple) else draw(lengths)
    return {"t": "Spectrum", "a": draw(arrays((c, n), cplx=cplx, **kw)), "r": draw(res), "l": draw(labels(c))}


@st.composite
def spectrograms(draw, channels=(1, 3), bins=(1, 5), lengths=(1, 7), offset=offsets, res=resolution, sr=sampling_rate, cplx=True, **kw):
    c = draw(some(*channels) if channels[0] < channels[1] else st.just(channels[0])) if isinstance(channels, tuple) else draw(channels)
    b = draw(st.integers(*bins)) if isinstance(bins, tuple) else draw(bins)
    n = draw(st.integers(*lengths)) if isinstance(lengths, tuple) else draw(lengths)
    return {"t": "Spectrogram", "a": draw(arrays((c, b, n), cplx=cplx, **kw)), "r": draw(res), "sr": draw(sr), "o": draw(offset), "l": draw(labels(c))}


def make(case):
    """Builds a sumpf object from its description"""
    a = make_array(case["a"])
    lab = case.get("l")
    if lab is not None:
        lab = tuple(lab) if len(lab) % 2 else list(lab)
    if case["t"] == "Signal":
        return sumpf.Signal(channels=a, sampling_rate=case["sr"], offset=case["o"], labels=lab)
    if case["t"] == "Spectrum":
        return sumpf.Spectrum(channels=a, resolution=case["r"], labels=lab)
    return sumpf.Spectrogram(channels=a, resolution=case["r"], sampling_rate=case["sr"], offset=case["o"], labels=lab)


def full_labels(case):
    """The labels, that the object has to have according to the documentation"""
    n = case["a"]["shape"][0]
    given = list(case.get("l") or [])[:n]
    return tuple(given + [""] * (n - len(given)))


class Snapshot:
    """Remembers the state of an object in order to check later, that it has not been modified"""

    def __init__(self, *objects):
        self.objects = [(o, self._state(o)) for o in objects]

    @staticmethod
    def _state(o):
        if isinstance(o, numpy.ndarray):
            return (o.copy(),)
        if isinstance(o, sumpf.Signal):
            return (o.channels().copy(), o.sampling_rate(), o.offset(), o.labels())
        if isinstance(o, sumpf.Spectrum):
            return (o.channels().copy(), o.resolution(), o.labels())
        if isinstance(o, sumpf.Spectrogram):
            return (o.channels().copy(), o.resolution(), o.sampling_rate(), o.offset(), o.labels())
        return (repr(o),)

    def check(self, what):
        from .core import Violation
        for o, s in self.objects:
            now = self._state(o)
            for a, b in zip(s, now):
                if isinstance(a, numpy.ndarray):
                    same = a.shape == b.shape and numpy.array_equal(a, b, equal_nan=True)
                else:
                    same = a == b
                if not same:
                    raise Violation(f"{what}: an operand or argument ({type(o).__name__}) has been modified: {str(a)[:120]} -> {str(b)[:120]}")


def check_meta(obj, what, cls=None, sr=None, offset=None, res=None, labels=None, shape=None):
    """Checks the metadata of a result"""
    from .core import Violation, equal, nearly
    if cls is not None and not isinstance(obj, cls):
        raise Violation(f"{what}: the result is a {type(obj).__name__} instead of a {cls.__name__}")
    if shape is not None:
        equal(tuple(obj.channels().shape), tuple(shape), f"{what}: shape of the channels")
    equal(tuple(obj.shape()), tuple(obj.channels().shape), f"{what}: shape()")
    equal(len(obj), obj.channels().shape[0], f"{what}: number of channels")
    equal(obj.length(), obj.channels().shape[-1], f"{what}: length()")
    if sr is not None:
        nearly(obj.sampling_rate(), sr, f"{what}: sampling rate")
    if res is not None:
        nearly(obj.resolution(), res, f"{what}: resolution")
    if offset is not None:
        equal(obj.offset(), offset, f"{what}: offset")
    if labels is not None:
        equal(tuple(obj.labels()), tuple(labels), f"{what}: labels")
    equal(len(obj.labels()), len(obj), f"{what}: number of labels")
