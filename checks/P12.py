"""Data objects are immutable values: equality, hash, repr, isolation"""

import copy
import math
from hypothesis import strategies as st
import numpy
import sumpf
from vlib import defaults, filters, gen
from vlib.core import Reject, Sub, equal, fail, require, same_array

special = st.sampled_from([float("inf"), float("-inf"), 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -0.0, 0.0, 0.1, 1 / 3, 1e16 + 2.0, 123456789.123456789, 1e-7])
plain = st.one_of(gen.small_float, gen.nice_float, special.filter(math.isfinite))
LABEL = st.one_of(gen.label_text, st.text(max_size=5), st.sampled_from(["'", '"', "\\", "\n", "a\tb", "array([1, 2])", " x ", "(", "\u2028", "ü€"]))


@st.composite
def data_objects(draw, infinite=True, empty=True):
    """Small objects, for which all values are given explicitly"""
    t = draw(st.sampled_from(["Signal", "Signal", "Spectrum", "Spectrogram"]))
    c = draw(st.integers(1, 3))
    shape = [c, draw(st.integers(0 if empty else 1, 4))]
    if t == "Spectrogram":
        shape = [c, draw(st.integers(1, 3)), draw(st.integers(0 if empty else 1, 3))]
    n = int(numpy.prod(shape))
    values = st.one_of(plain, special) if infinite else plain
    cplx = t != "Signal" and draw(st.integers(0, 3)) != 0
    a = {"shape": shape, "re": draw(st.lists(plain if cplx else values, min_size=n, max_size=n))}
    if cplx:
        a["im"] = draw(st.lists(plain, min_size=n, max_size=n))
    case = {"t": t, "a": a, "l": draw(st.one_of(st.none(), st.lists(LABEL, max_size=c + 1)))}
    if t != "Signal":
        case["r"] = draw(st.one_of(gen.resolution, st.floats(1e-300, 1e300)))
    if t != "Spectrum":
        case["sr"] = draw(st.one_of(gen.sampling_rate, st.floats(1e-300, 1e300)))
        case["o"] = draw(st.one_of(gen.offsets, st.integers(-2 ** 40, 2 ** 40)))
    return case


def _copy(case):
    return copy.deepcopy(case)


# ---------------------------------------------------------------------------
# equality and hash
# ---------------------------------------------------------------------------

MUTANTS = ["sample", "ulp", "shape", "channel", "rate", "offset", "resolution", "label", "swap", "kind", "transpose"]


@st.composite
def value_case(draw):
    return {"x": draw(data_objects()), "m": draw(st.sampled_from(MUTANTS)), "i": draw(st.integers(0, 1000)), "layout": draw(st.sampled_from(["C", "F", "strided", "reversed", "readonly"])),
            "dtype": draw(st.sampled_from(["same", "same", "complex", "float32"]))}


def mutant(case, m, i):
    """Returns the description of an object, that is different"""
    x = _copy(case)
    a = x["a"]
    n = len(a["re"])
    if m in ("sample", "ulp") and n:
        key = "im" if "im" in a and i % 2 else "re"
        v = a[key][i % n]
        new = numpy.nextafter(v, 0.0 if v > 0 else 1.0) if m == "ulp" else v + 1.0
        if new == v:
            new = 17.0
        a[key][i % n] = float(new)
    elif m == "shape":
        # one sample more
        old = numpy.array(a["re"]).reshape(a["shape"])
        new = numpy.zeros(a["shape"][:-1] + [a["shape"][-1] + 1])
        new[..., :-1] = old
        a.pop("im", None)
        a.update(shape=list(new.shape), re=new.ravel().tolist())
    elif m == "channel":
        a["shape"] = [a["shape"][0] + 1] + a["shape"][1:]
        extra = int(numpy.prod(a["shape"][1:]))
        a["re"] = a["re"] + a["re"][:extra]
        if "im" in a:
            a["im"] = a["im"] + a["im"][:extra]
    elif m == "rate" and "sr" in x:
        x["sr"] = float(numpy.nextafter(x["sr"], 1e308)) if i % 2 else x["sr"] * 2.0
    elif m == "resolution" and "r" in x:
        x["r"] = float(numpy.nextafter(x["r"], 1e308)) if i % 2 else x["r"] * 2.0
    elif m == "offset" and "o" in x:
        x["o"] += (1, -1, 2 ** 32)[i % 3]
    elif m == "label":
        labels = list(gen.full_labels(x))
        labels[i % len(labels)] = labels[i % len(labels)] + ("x", " ", "\0")[i % 3]
        x["l"] = labels
    elif m == "swap" and a["shape"][0] > 1:
        labels = list(gen.full_labels(x))
        x["l"] = labels[::-1]
        if x["l"] == labels:
            raise Reject()
    elif m == "kind":
        if x["t"] == "Signal":
            x = {"t": "Spectrum", "a": a, "r": x["sr"], "l": x["l"]}
        elif x["t"] == "Spectrum":
            x = {"t": "Signal", "a": a, "sr": x["r"], "o": 0, "l": x["l"]}
        else:
            s = a["shape"]
            a["shape"] = [s[0], s[1] * s[2]]
            x = {"t": "Spectrum", "a": a, "r": x["r"], "l": x["l"]}
    elif m == "transpose":
        s = a["shape"]
        if s[0] == s[-1]:
            raise Reject()
        a["shape"] = s[::-1]
        if s[-1] == 0:
            raise Reject()
    else:
        raise Reject()
    return x


FOREIGN = [None, 1, 0.0, 1j, "Signal", b"x", (), [], {}, object(), numpy.float64(1.0), numpy.array(0.0), numpy.zeros(3), sumpf.Signal, float("nan"), [1.0, 2.0], Ellipsis]


def check_value(case, ctx):
    a = gen.make(case["x"])
    other = _copy(case["x"])
    other["a"]["layout"] = case["layout"]
    other["l"] = list(gen.full_labels(other))
    for k in ("sr", "r"):
        if k in other and float(other[k]).is_integer() and abs(other[k]) < 2 ** 53:
            other[k] = int(other[k]) if isinstance(other[k], float) else float(other[k])
    b = gen.make(other)
    if case["dtype"] == "complex":
        b = _with_channels(b, b.channels().astype(complex))
    elif case["dtype"] == "float32":
        single = b.channels().astype(numpy.complex64 if numpy.iscomplexobj(b.channels()) else numpy.float32)
        b = _with_channels(b, single)
        a = _with_channels(a, single.astype(numpy.complex128 if numpy.iscomplexobj(single) else numpy.float64))
    kind = case["x"]["t"]
    for x, y in ((a, b), (b, a), (a, a)):
        require(_bool(x == y) is True, f"equal {kind}s are not equal")
        require(_bool(x != y) is False, f"equal {kind}s are considered to be unequal")
    equal(hash(a), hash(b), f"hashes of equal {kind}s")
    equal(len({a, b}), 1, f"number of elements in a set of equal {kind}s")
    snapshot = gen.Snapshot(a, b)
    for f in FOREIGN + [a.channels(), a.channels()[0], a.labels()]:
        for x, y in ((a, f), (f, a)):
            require(_bool(x == y) is False, lambda: f"a {kind} is equal to {f!r}")
            require(_bool(x != y) is True, lambda: f"a {kind} is not unequal to {f!r}")
    snapshot.check("comparison")
    if case["dtype"] == "float32":
        return
    changed = mutant(case["x"], case["m"], case["i"])
    c = gen.make(changed)
    for x, y in ((a, c), (c, a), (b, c)):
        require(_bool(x == y) is False, lambda: f"{kind}s, that differ in {case['m']} are equal")
        require(_bool(x != y) is True, lambda: f"{kind}s, that differ in {case['m']} are not unequal")
    equal(len({a, b, c}), 2, f"number of elements in a set of {kind}s")
    ctx.nontrivial_if(a.channels().size)
    ctx.label(kind, case["m"])


def _bool(x):
    if not isinstance(x, (bool, numpy.bool_)):
        fail(f"the result of a comparison is {x!r}")
    return bool(x)


def _with_channels(o, channels):
    if isinstance(o, sumpf.Signal):
        return sumpf.Signal(channels=channels, sampling_rate=o.sampling_rate(), offset=o.offset(), labels=o.labels())
    if isinstance(o, sumpf.Spectrum):
        return sumpf.Spectrum(channels=channels, resolution=o.resolution(), labels=o.labels())
    return sumpf.Spectrogram(channels=channels, resolution=o.resolution(), sampling_rate=o.sampling_rate(), offset=o.offset(), labels=o.labels())


# ---------------------------------------------------------------------------
# representation
# ---------------------------------------------------------------------------

NAMESPACE = {"array": numpy.array, "inf": numpy.inf, "Signal": sumpf.Signal, "Spectrum": sumpf.Spectrum, "Spectrogram": sumpf.Spectrogram, "Filter": sumpf.Filter}


def check_repr(case, ctx):
    a = gen.make(case)
    text = repr(a)
    b = eval(text, dict(NAMESPACE))     # pylint: disable=eval-used
    require(type(b) is type(a), lambda: f"evaluating the representation gives a {type(b).__name__}")
    same_array(b.channels(), a.channels(), "channels after evaluating the representation")
    equal(b.labels(), a.labels(), "labels after evaluating the representation")
    require(a == b and b == a, lambda: f"the evaluated representation is different: {text[:300]}")
    ctx.nontrivial_if(a.channels().size > 1)
    ctx.label(case["t"])


@st.composite
def big_case(draw):
    t = draw(st.sampled_from([gen.signals, gen.spectrums, gen.spectrograms]))
    if t is gen.spectrograms:
        return draw(t(bins=(1, 40), lengths=(1, 40)))
    return draw(t(lengths=st.one_of(st.integers(1, 40), st.sampled_from([999, 1000, 1001, 1500]))))


@st.composite
def filter_repr_case(draw):
    common = draw(st.sampled_from([[1.0], [1.0, 5.0], [3.0, 7.0, 11.5]]))
    leaves = st.one_of(filters.plain_leaves, filters.plain_leaves, filters.bands_term(common=common))
    f = draw(filters.filters(leaves=leaves, max_leaves=4))
    f["l"] = draw(st.one_of(st.none(), st.lists(LABEL, max_size=4)))
    return {"x": f, "f": common, "m": draw(st.integers(0, 60)), "k": draw(st.integers(0, 2))}


def check_filter_repr(case, ctx):
    f = numpy.array(case["f"])
    evaluation = filters.Evaluation(f)
    models = [evaluation(c) for c in case["x"]["c"]]
    try:
        a, b = filters.make(case["x"]), filters.make(case["x"])
    except ZeroDivisionError as e:
        if evaluation.zero_division:
            raise Reject() from e
        raise
    if "nan" in repr(a) or (evaluation.zero_division and "inf" in repr(a)):
        raise Reject()
    require(_bool(a == b) is True and _bool(a != b) is False, "filters with the same terms and labels are not equal")
    for x in FOREIGN + [sumpf.Signal(), sumpf.Spectrum(), sumpf.Spectrogram()]:
        require(_bool(a == x) is False and _bool(x == a) is False, lambda: f"a filter is equal to {x!r}")
        require(_bool(a != x) is True and _bool(x != a) is True, lambda: f"a filter is not unequal to {x!r}")
    text = repr(a)
    restored = eval(text, dict(NAMESPACE))      # pylint: disable=eval-used
    require(type(restored) is sumpf.Filter, lambda: f"evaluating the representation gives a {type(restored).__name__}")
    equal(restored.labels(), filters.full_labels(case["x"]), "labels of the restored filter")
    equal(len(restored), len(a), "number of channels of the restored filter")
    n = 0
    for x, m, y in zip(restored(f), models, a(f)):
        n += filters.compare(x, m, "response of the restored filter")
        if not numpy.allclose(x, y, rtol=1e-6, atol=1e-9, equal_nan=True) and numpy.isfinite(m.e).all():
            filters.compare(y, m, "response of the filter")
    ctx.label("equal" if restored == a else "simplified")
    ctx.nontrivial_if(n)
    # a filter, that is different, is not equal
    if case["k"] == 0:
        labels = list(filters.full_labels(case["x"]))
        labels[case["m"] % len(labels)] += "x"
        other = sumpf.Filter(transfer_functions=a.transfer_functions(), labels=labels)
    elif case["k"] == 1:
        other = sumpf.Filter(transfer_functions=a.transfer_functions() + a.transfer_functions()[:1], labels=a.labels() + a.labels()[:1])
    else:
        channel = case["m"] % len(a)
        tree, what = filters.mutate(case["x"]["c"][channel], case["m"])
        e1 = filters.Evaluation(f)
        m1 = e1(tree)
        try:
            term = filters.build(tree)
        except ZeroDivisionError as e:
            raise Reject() from e
        different = numpy.isfinite(m1.e) & numpy.isfinite(models[channel].e)
        with numpy.errstate(all="ignore"):
            different &= numpy.abs(m1.v - models[channel].v) > 1e-3 * (numpy.abs(m1.v) + numpy.abs(models[channel].v)) + 1e4 * (m1.e + models[channel].e)
        if not different.any():
            return
        ctx.label(f"mutant {what}")
        tfs = list(a.transfer_functions())
        tfs[channel] = term
        other = sumpf.Filter(transfer_functions=tuple(tfs), labels=a.labels())
    require(_bool(a == other) is False and _bool(other == a) is False, "filters, that have different terms, labels or channels are equal")
    require(_bool(a != other) is True and _bool(other != a) is True, "filters, that have different terms, labels or channels are not unequal")


# ---------------------------------------------------------------------------
# isolation
# ---------------------------------------------------------------------------

def _operations():     # pylint: disable=too-many-statements
    """All operations, that are applied in the programs: functions of two objects, a filter and an argument"""
    o = {}
    signal = {
        "fourier_transform": lambda s, t, f, p: s.fourier_transform(),
        "block_fourier_transform": lambda s, t, f, p: s.fourier_transform(window=4 + p % 5, overlap=0.5),
        "window_signal": lambda s, t, f, p: s.fourier_transform(window=t, overlap=p % max(t.length(), 1)),
        "stft": lambda s, t, f, p: s.short_time_fourier_transform(window=max(s.length() // 2, 1), overlap=0.5, pad=bool(p % 2)),
        "stft_window": lambda s, t, f, p: s.short_time_fourier_transform(window=t, overlap=0),
        "shift": lambda s, t, f, p: s.shift(p % 9 - 4, mode=list(sumpf.Signal.shift_modes)[p % 4]),
        "pad": lambda s, t, f, p: s.pad(p % 9, value=1.5),
        "reversed": lambda s, t, f, p: reversed(s),
        "convolve": lambda s, t, f, p: s.convolve(t, list(sumpf.Signal.convolution_modes)[p % 5]),
        "correlate": lambda s, t, f, p: s.correlate(t, list(sumpf.Signal.convolution_modes)[p % 5]),
        "convolve_array": lambda s, t, f, p: s.convolve(t.channels(), list(sumpf.Signal.convolution_modes)[p % 5]),
        "mod": lambda s, t, f, p: s % t,
        "level_vs_time": lambda s, t, f, p: s.level_vs_time(integration_time=(p % 12 + 0.5) / 2 / s.sampling_rate(), pad=bool(p % 2)),
        "statistics": lambda s, t, f, p: [getattr(s, n)(single_value=bool(p % 2)) for n in ("level", "mean", "standard_deviation", "variance", "skewness", "kurtosis")],
        "energy_decay": lambda s, t, f, p: sumpf.EnergyDecayCurve(s),
        "time_samples": lambda s, t, f, p: s.time_samples(),
        "duration": lambda s, t, f, p: s.duration(),
    }
    spectrum = {
        "inverse_fourier_transform": lambda s, t, f, p: s.inverse_fourier_transform(),
        "pad": lambda s, t, f, p: s.pad(p % 9, value=1.5),
        "conjugate": lambda s, t, f, p: s.conjugate(),
        "views": lambda s, t, f, p: [getattr(s, n)() for n in ("real", "imaginary", "magnitude", "phase", "frequency_samples", "maximum_frequency")],
        "level": lambda s, t, f, p: s.level(single_value=bool(p % 2)),
    }
    spectrogram = {
        "istft": lambda s, t, f, p: s.inverse_short_time_fourier_transform(window=2 * (s.number_of_frequencies() - 1), overlap=0.5, pad=bool(p % 2)),
        "istft_array": lambda s, t, f, p: s.inverse_short_time_fourier_transform(window=numpy.hanning(2 * (s.number_of_frequencies() - 1) + 1)[:-1], overlap=0.5, pad=bool(p % 2)),
        "pad": lambda s, t, f, p: s.pad(p % 9, value=1.5),
        "shift": lambda s, t, f, p: s.shift(p % 9 - 4, mode=list(sumpf.Signal.shift_modes)[p % 4]),
        "conjugate": lambda s, t, f, p: s.conjugate(),
        "views": lambda s, t, f, p: [getattr(s, n)() for n in ("real", "imaginary", "magnitude", "phase", "frequency_samples", "time_samples", "maximum_frequency", "duration")],
    }
    common = {
        "add": lambda s, t, f, p: s + t,
        "sub": lambda s, t, f, p: s - t,
        "mul": lambda s, t, f, p: s * t,
        "div": lambda s, t, f, p: s / t,
        "pow": lambda s, t, f, p: s ** t,
        "number": lambda s, t, f, p: [s + p, p - s, s * p, p / (s + 0.1), s ** 2],
        "array": lambda s, t, f, p: [s + t.channels(), t.channels() - s, s * list(range(s.length())), t.channels() / s],
        "abs": lambda s, t, f, p: abs(s),
        "neg": lambda s, t, f, p: -s,
        "invert": lambda s, t, f, p: ~s,
        "filter": lambda s, t, f, p: [f * s, s * f],
        "getitem": lambda s, t, f, p: [s[0], s[..., 0:2] if p % 5 == 0 else s[:, 0:2], s[0.0:0.5, ::2]],
        "equality": lambda s, t, f, p: [s == t, s != t, hash(s), repr(s), str(s), len(s), s.shape(), s.labels()],
        "merge": lambda s, t, f, p: sumpf.Merge((s, t), mode=list(sumpf.Merge.modes)[p % 2]).output(),
        "concatenate": lambda s, t, f, p: sumpf.Concatenate((s, t)).output(),
        "spectrum_of_filter": lambda s, t, f, p: f.spectrum(resolution=1.0, length=p + 1),
    }
    for name, table in (("Signal", signal), ("Spectrum", spectrum), ("Spectrogram", spectrogram)):
        o[name] = {**common, **table}
    return o


OPERATIONS = _operations()
EXTENSIONS = {"Signal": ["wav", "npz", "json", "csv", "npy", "flac", "pkl"], "Spectrum": ["npz", "json", "csv", "npy", "pkl"], "Spectrogram": ["npz", "json", "pkl"]}


@st.composite
def program(draw):
    t = draw(st.sampled_from(["Signal", "Spectrum", "Spectrogram"]))
    strategy = {"Signal": gen.signals(lengths=(1, 12)), "Spectrum": gen.spectrums(lengths=(1, 10)), "Spectrogram": gen.spectrograms(bins=(2, 5), lengths=(1, 6))}[t]
    names = sorted(OPERATIONS[t])
    f = draw(st.sampled_from([["Butterworth"], ["Bands"], ["A"], ["two"]]))
    return {"t": t, "x": draw(strategy), "y": draw(strategy), "f": f[0],
            "steps": draw(st.lists(st.tuples(st.sampled_from(names + ["save"]), st.integers(0, 2), st.integers(0, 2), st.integers(0, 50)), min_size=1, max_size=6))}


def _filter(name):
    if name == "Butterworth":
        return sumpf.ButterworthFilter(cutoff_frequency=1000.0, order=2, highpass=True)
    if name == "Bands":
        return sumpf.Bands({10.0: 1.0, 100.0: 2.0, 1000.0: 0.5})
    if name == "A":
        return sumpf.AWeighting()
    return sumpf.Merge((sumpf.ButterworthFilter(), sumpf.ButterworthFilter(highpass=True))).output()


def _writeable(o, result):
    """Collects everything in the result, that can be accessed"""
    if isinstance(o, (list, tuple)):
        for x in o:
            _writeable(x, result)
    else:
        result.append(o)
    return result


def check_program(case, ctx):
    pool = [gen.make(case["x"]), gen.make(case["y"])]
    pool.append(pool[0])
    f = _filter(case["f"])
    response = [numpy.array(c) for c in f([1.0, 10.0, 50.0, 5000.0])]
    text = repr(f)
    worked = 0
    results = []
    for name, i, j, p in case["steps"]:
        a, b = pool[i], pool[j]
        snapshot = gen.Snapshot(*[x for x in pool if isinstance(x, sumpf.Signal) or hasattr(x, "channels")])
        before = gen.Snapshot(*results)
        try:
            if name == "save":
                kinds = EXTENSIONS[type(a).__name__ if type(a).__name__ in EXTENSIONS else case["t"]]
                r = a.save(ctx.tmp("file." + kinds[p % len(kinds)]))
                require(r is a, "saving does not return the object itself")
            else:
                r = OPERATIONS[case["t"]][name](a, b, f, p)
            worked += 1
            ctx.label(f"{case['t']} {name}")
        except Exception:   # pylint: disable=broad-except; many combinations are not supported, here only the isolation is checked
            r = None
            ctx.label(f"{case['t']} {name} failed")
        snapshot.check(f"{name}")
        before.check(f"{name} after a previous operation")
        equal(repr(f), text, f"the filter after {name}")
        for x in _writeable(r, []):
            if type(x).__module__.startswith("sumpf") and hasattr(x, "channels"):
                results.append(x)
                if type(x) is type(pool[2]) and x.length() and x.length() < 100:
                    pool[2] = x
            elif isinstance(x, numpy.ndarray):
                results.append(x)
    for c, d in zip(f([1.0, 10.0, 50.0, 5000.0]), response):
        same_array(c, d, "response of the filter after the operations")
    ctx.nontrivial_if(worked >= 2)


# ---------------------------------------------------------------------------
# objects, that share their memory
# ---------------------------------------------------------------------------

@st.composite
def view_case(draw):
    t = draw(st.sampled_from(["Signal", "Spectrum", "Spectrogram"]))
    n = 2 if t == "Spectrogram" else 1
    side = draw(st.integers(1, 4))
    shape = [side] * (n + 1) if draw(st.booleans()) else [draw(st.integers(1, 4)) for _ in range(n + 1)]
    views = st.fixed_dictionaries({"order": st.permutations(list(range(n + 1))), "step": st.lists(st.sampled_from([1, 1, 2, -1]), min_size=n + 1, max_size=n + 1),
                                   "start": st.lists(st.sampled_from([0, 0, 1]), min_size=n + 1, max_size=n + 1), "zero": st.booleans()})
    return {"t": t, "shape": [2 * x for x in shape], "size": shape, "values": draw(st.sampled_from(["different", "rows", "few"])), "seed": draw(gen.seed), "views": draw(st.lists(views, min_size=2, max_size=4))}


def check_views(case, ctx):
    """Whether objects are equal depends on the values, even if their channels are views on the same memory"""
    rng = numpy.random.Generator(numpy.random.PCG64(case["seed"]))
    shape = tuple(case["shape"])
    memory = {"different": lambda: rng.permutation(int(numpy.prod(shape))).reshape(shape).astype(float), "rows": lambda: numpy.zeros(shape) + numpy.arange(shape[-1]),
              "few": lambda: rng.integers(0, 2, shape).astype(float)}[case["values"]]()
    objects = []
    for v in case["views"]:
        a = memory.transpose(v["order"])
        a = a[tuple(slice(start if step > 0 else None, None, step) for start, step in zip(v["start"], v["step"]))]
        a = a[tuple(slice(0, s) for s in case["size"])]
        if v["zero"]:       # all elements have the same address
            a = numpy.broadcast_to(a[..., 0:1], a.shape)
        objects.append(getattr(sumpf, case["t"])(channels=a))
    copies = [numpy.array(o.channels()) for o in objects]
    for x, a in zip(objects, copies):
        for y, b in zip(objects, copies):
            expected = a.shape == b.shape and bool((a == b).all())
            require(_bool(x == y) is expected, lambda: f"{case['t']}s with the channels {a.tolist()} and {b.tolist()}, that share their memory: equality")
            require(_bool(x != y) is not expected, lambda: f"{case['t']}s with the channels {a.tolist()} and {b.tolist()}, that share their memory: inequality")
            if expected:
                equal(hash(x), hash(y), "hashes of equal objects, that share their memory")
    ctx.nontrivial_if(any(x.shape == y.shape and (x != y).any() for x in copies for y in copies))


# ---------------------------------------------------------------------------
# labels
# ---------------------------------------------------------------------------

@st.composite
def label_case(draw):
    t = draw(st.sampled_from(["Signal", "Spectrum", "Spectrogram", "Filter"]))
    return {"t": t, "c": draw(st.integers(1, 5)), "l": draw(st.one_of(st.none(), st.lists(LABEL, max_size=7))), "list": draw(st.booleans())}


def check_labels(case, ctx):
    n = case["c"]
    labels = case["l"]
    if labels is not None and not case["list"]:
        labels = tuple(labels)
    elif labels is not None:
        labels = list(labels)
    given = list(case["l"] or [])
    expected = tuple((given + [""] * n)[:n])
    if case["t"] == "Signal":
        o = sumpf.Signal(channels=numpy.zeros((n, 3)), labels=labels)
    elif case["t"] == "Spectrum":
        o = sumpf.Spectrum(channels=numpy.zeros((n, 3)), labels=labels)
    elif case["t"] == "Spectrogram":
        o = sumpf.Spectrogram(channels=numpy.zeros((n, 3, 2)), labels=labels)
    else:
        o = sumpf.Filter(transfer_functions=(sumpf.Filter.Constant(1.0),) * n, labels=labels)
    equal(o.labels(), expected, f"labels of a {case['t']}")
    require(isinstance(o.labels(), tuple), "the labels are not in a tuple")
    if case["list"] and labels is not None:
        equal(labels, given, "the list of labels, that has been passed")
        labels.append("another")
        if labels:
            labels[0] = "changed"
        equal(o.labels(), expected, f"labels of a {case['t']} after the list has been changed")
    for r in (abs(o), -o) + ((o.spectrum(1.0, 3),) if case["t"] == "Filter" else ()):
        equal(r.labels(), expected, f"labels of the absolute, the negative or the spectrum of a {case['t']}")
    ctx.nontrivial_if(len(given) != n)


SUBS = [
    Sub("values", value_case(), check_value, quick=8000, rule="the object is not empty"),
    Sub("repr", data_objects(empty=False), check_repr, quick=4000, rule="more than one value"),
    Sub("repr_large", big_case(), check_repr, quick=400, rule="more than one value"),
    Sub("filters", filter_repr_case(), check_filter_repr, quick=5000, rule="a well-conditioned response"),
    Sub("programs", program(), check_program, quick=4000, rule="at least two operations worked"),
    Sub("views", view_case(), check_views, quick=2000, rule="different values in arrays of the same shape"),
    Sub("labels", label_case(), check_labels, quick=2000, rule="the number of labels differs from the number of channels"),
    defaults.sub("P12", 300),
]
ASSUMPTIONS = ["no NaN values", "representations are evaluated for non-empty data without complex infinities"]
