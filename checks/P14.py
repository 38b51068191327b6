"""Applying filters to data multiplies with the filter's response"""

import math
from hypothesis import strategies as st
import numpy
import sumpf
from vlib import defaults, filters, gen, large
from vlib.core import Reject, Sub, close, equal, fail, require, same_array
from vlib.gen import check_meta

# tidy transfer functions, as they occur in practice
LOWPASS = st.fixed_dictionaries({"t": st.just("Quotient"), "a": st.just({"t": "Constant", "v": 1.0}),
                                 "b": st.tuples(st.sampled_from([[1e-3, 1.0], [1e-4, 1e-2, 1.0], [0.1, 1.0]]), st.booleans()).map(
                                     lambda t: {"t": "Polynomial", "c": t[0], "tr": t[1], "as": "list"}),
                                 "tr": st.booleans()})
BANDS = st.one_of(filters.bands_term(), st.tuples(st.sampled_from(["*", "+", "/"]), filters.bands_term(), filters.polynomial()).map(lambda t: {"t": t[0], "a": t[1], "b": t[2]}))
TREES = st.one_of(filters.trees(filters.plain_leaves, 3), filters.trees(filters.plain_leaves, 1), LOWPASS, BANDS)


@st.composite
def multichannel(draw, n):
    return {"t": "Filter", "c": draw(st.lists(TREES, min_size=n, max_size=n)), "l": draw(gen.labels(n))}


def _make(case, evaluation):
    models = [evaluation(c) for c in case["c"]]
    try:
        f = filters.make(case)
    except ZeroDivisionError as e:
        again = filters.Evaluation([1.0, 7.3])
        for c in case["c"]:
            again(c)
        if evaluation.zero_division or again.zero_division:
            raise Reject() from e
        raise
    return f, models


# ---------------------------------------------------------------------------
# sampling
# ---------------------------------------------------------------------------

frequency = st.one_of(st.floats(-1.0, 4.0).map(lambda x: float(numpy.round(10.0 ** x, 3))), st.integers(1, 2000).map(float))


@st.composite
def call_case(draw):
    n = draw(st.integers(1, 4))
    return {"x": draw(multichannel(n)), "f": draw(st.lists(st.one_of(frequency, frequency, st.just(0.0)), min_size=1, max_size=6)),
            "as": draw(st.sampled_from(["array", "list", "tuple", "ints"])), "perm": draw(st.integers(0, 100)),
            "r": draw(gen.resolution), "len": draw(st.integers(0, 9))}


def check_call(case, ctx):
    f = list(case["f"])
    if case["as"] == "ints":
        f = [float(round(x)) for x in f]
    nonzero = [i for i, x in enumerate(f) if x]
    evaluation = filters.Evaluation([f[i] for i in nonzero])
    filter_, models = _make(case["x"], evaluation)
    text = repr(filter_)
    n = len(filter_)
    query = {"array": numpy.array, "list": list, "tuple": tuple, "ints": lambda x: numpy.array(x).astype(int)}[case["as"]](f)
    snapshot = gen.Snapshot(query) if isinstance(query, numpy.ndarray) else None
    response = filter_(query)
    require(isinstance(response, tuple), lambda: f"the response is a {type(response).__name__}")
    equal(len(response), n, "number of channels of the response")
    decided = 0
    for k, (channel, m) in enumerate(zip(response, models)):
        equal(numpy.shape(channel), (len(f),), f"shape of the response of channel {k}")
        decided += filters.compare(numpy.asarray(channel)[nonzero], m, f"response of channel {k}")
        # the response does not depend on the other channels
        alone = sumpf.Filter(transfer_functions=(filter_.transfer_functions()[k],))
        same_array(alone(query)[0], channel, f"response of channel {k} compared to that of a single channel filter")
        # each frequency is independent of the others
        for i, x in enumerate(f):
            value = alone(x)[0]
            equal(numpy.shape(value), (), "shape of the response to a scalar frequency")
            a, b = numpy.complex128(value), numpy.complex128(channel[i])
            if not (a == b or abs(a - b) <= 1e-9 * abs(b) or (not numpy.isfinite(a) and not numpy.isfinite(b))):
                # differently rounded intermediate results of ill-conditioned expressions
                if x and not numpy.isfinite(m.e[nonzero.index(i)]):
                    continue
                if x and abs(a - b) <= 100 * m.e[nonzero.index(i)]:
                    continue
                fail(f"response of channel {k} at {x} Hz is {a} instead of {b}, if only this frequency is passed")
    # permutation of the channels
    order = numpy.random.Generator(numpy.random.PCG64(case["perm"])).permutation(n)
    permuted = sumpf.Filter(transfer_functions=tuple(filter_.transfer_functions()[i] for i in order))
    for i, channel in zip(order, permuted(query)):
        same_array(channel, response[i], "response after permuting the channels")
    if snapshot:
        snapshot.check("sampling")
    # the spectrum
    length, resolution = case["len"], case["r"]
    spectrum = filter_.spectrum(resolution=resolution, length=length)
    check_meta(spectrum, "spectrum of the filter", cls=sumpf.Spectrum, res=resolution, labels=filters.full_labels(case["x"]), shape=(n, length))
    e2 = filters.Evaluation(numpy.arange(1, length) * resolution)
    for k, tree in enumerate(case["x"]["c"]):
        if length > 1:
            filters.compare(spectrum.channels()[k, 1:], e2(tree), f"spectrum of channel {k}")
        if length:
            zero = numpy.complex128(sumpf.Filter(transfer_functions=(filter_.transfer_functions()[k],))(0.0)[0])
            a = numpy.complex128(spectrum.channels()[k, 0])
            require(a == zero or (not numpy.isfinite(a) and not numpy.isfinite(zero)) or abs(a - zero) <= 1e-9 * abs(zero),
                    lambda: f"spectrum of channel {k} at 0 Hz is {a} instead of {zero}")
    equal(repr(filter_), text, "the filter after sampling it")
    ctx.nontrivial_if(decided and (n > 1 or len(f) > 1))
    transformed = [filters.has_transform(c) for c in case["x"]["c"]]
    ctx.label("mixed transforms" if len(set(transformed)) > 1 else "uniform", "0 Hz" if len(nonzero) < len(f) else "no 0 Hz")


# ---------------------------------------------------------------------------
# application to data
# ---------------------------------------------------------------------------

@st.composite
def data_case(draw):
    t = draw(st.sampled_from(["Signal", "Signal", "Spectrum", "Spectrogram"]))
    n = draw(st.integers(1, 3))
    nf, nd = draw(st.sampled_from([(n, n), (1, n), (n, 1)]))
    if t == "Signal":
        data = draw(gen.signals(channels=(nd, nd), lengths=st.one_of(st.integers(2, 12), gen.sizes(2, 40, rare=12))))
    elif t == "Spectrum":
        data = draw(gen.spectrums(channels=(nd, nd), lengths=gen.sizes(1, 12)))
    else:
        data = draw(gen.spectrograms(channels=(nd, nd), bins=gen.sizes(1, 6, big=(33, 65)), lengths=gen.sizes(1, 6, big=(20, 50))))
    return {"f": draw(multichannel(nf)), "d": data, "order": draw(st.sampled_from(["fd", "df"]))}


def check_data(case, ctx):     # pylint: disable=too-many-locals
    data = gen.make(case["d"])
    x = numpy.array(data.channels())
    t = case["d"]["t"]
    if t == "Signal":
        length = x.shape[-1]
        bins = length // 2 + 1
        resolution = case["d"]["sr"] / length
        k = numpy.arange(bins)
        m = numpy.arange(length)
        matrix = numpy.exp(-2j * math.pi * numpy.outer(m + case["d"]["o"], k) / length)
        values = x @ matrix
        scale = numpy.abs(x).sum(axis=1)
    elif t == "Spectrum":
        bins, resolution = x.shape[-1], case["d"]["r"]
        values = x
        scale = None
    else:
        bins, resolution = x.shape[1], case["d"]["r"]
        values = x
        scale = None
    evaluation = filters.Evaluation(resolution * numpy.arange(1, bins))
    filter_, models = _make(case["f"], evaluation)
    text = repr(filter_)
    h, e = [], []
    for tf, m in zip(filter_.transfer_functions(), models):
        zero = numpy.complex128(sumpf.Filter(transfer_functions=(tf,))(0.0)[0])
        h.append(numpy.concatenate(([zero], m.v)))
        e.append(numpy.concatenate(([1e-12 * abs(zero)], m.e)))
    nf, nd = len(h), x.shape[0]
    n = max(nf, nd)
    snapshot = gen.Snapshot(data)
    result = filter_ * data if case["order"] == "fd" else data * filter_
    snapshot.check("filtering")
    equal(repr(filter_), text, "the filter after applying it")
    what = f"filter * {t}" if case["order"] == "fd" else f"{t} * filter"
    if t == "Signal":
        out = 2 * (bins - 1)
        check_meta(result, what, cls=sumpf.Signal, offset=0, labels=("Product",) * n, shape=(n, out))
        if out:
            close(result.sampling_rate(), resolution * out, f"{what}: sampling rate", rtol=1e-12)
    elif t == "Spectrum":
        check_meta(result, what, cls=sumpf.Spectrum, res=resolution, labels=("Product",) * n, shape=(n, bins))
    else:
        check_meta(result, what, cls=sumpf.Spectrogram, res=resolution, sr=case["d"]["sr"], offset=case["d"]["o"], labels=("Product",) * n, shape=(n,) + x.shape[1:])
    decided = 0
    for c in range(n):
        a, b = (c if nf > 1 else 0), (c if nd > 1 else 0)
        if t == "Spectrum":
            v = filters.Value(h[a], e[a]) * filters.Value(values[b], 0.0)
            decided += filters.compare(result.channels()[c], v, f"{what}: channel {c}")
        elif t == "Spectrogram":
            for i in range(x.shape[2]):
                v = filters.Value(h[a], e[a]) * filters.Value(values[b, :, i], 0.0)
                decided += filters.compare(result.channels()[c, :, i], v, f"{what}: channel {c}, time {i}")
        else:
            v = filters.Value(h[a], e[a]) * filters.Value(values[b], 1e-13 * scale[b])
            if out == 0 or not numpy.isfinite(v.e).all() or not numpy.isfinite(v.v).all():
                continue
            bound = (2 * v.e.sum() + 1e-14 * numpy.abs(v.v).sum()) / out
            spectrum = v.v.copy()
            spectrum[0] = spectrum[0].real
            spectrum[-1] = spectrum[-1].real
            weights = numpy.full(bins, 2.0)
            weights[0] = 1.0
            weights[-1] = 1.0
            expected = numpy.array([(weights * spectrum * numpy.exp(2j * math.pi * numpy.arange(bins) * i / out)).sum().real for i in range(out)]) / out
            if bound > 1e-4 * numpy.abs(expected).max() + 1e-9:
                continue
            close(result.channels()[c], expected, f"{what}: channel {c}", rtol=0.0, atol=20 * float(bound) + 1e-250)
            decided += 1
    ctx.nontrivial_if(decided and bins > 1)
    ctx.label(t, "offset" if case["d"].get("o") else "no offset", f"{'1' if nf == 1 else 'n'}:{'1' if nd == 1 else 'n'}", "decided" if decided else "undecided")


# ---------------------------------------------------------------------------
# relations between the ways to apply a filter
# ---------------------------------------------------------------------------

@st.composite
def relation_case(draw):
    n = draw(st.integers(1, 3))
    length = 2 * draw(st.integers(1, 20))
    return {"names": draw(st.lists(st.sampled_from(["lowpass", "highpass", "A", "bands", "delay", "derivative", "constant"]), min_size=n, max_size=n)),
            "x": draw(gen.signals(channels=(n, n), lengths=(length, length))), "fc": draw(st.sampled_from([10.0, 500.0, 3000.0])), "n": draw(st.integers(1, 4))}


def named(name, fc, order):
    if name == "lowpass":
        return sumpf.ButterworthFilter(cutoff_frequency=fc, order=order)
    if name == "highpass":
        return sumpf.Chebyshev1Filter(ripple=1.0, cutoff_frequency=fc, order=order, highpass=True)
    if name == "A":
        return sumpf.AWeighting()
    if name == "bands":
        return sumpf.Bands({fc: 1.0, 2 * fc: 2.0 + 1j, 5 * fc: 0.5}, interpolations=sumpf.Bands.interpolations.LINEAR)
    if name == "delay":
        return sumpf.DelayFilter(delay=1.0 / fc)
    if name == "derivative":
        return sumpf.DerivativeFilter()
    return sumpf.Filter()


def check_relation(case, ctx):
    s = gen.make(case["x"])
    singles = [named(n, case["fc"], case["n"]) for n in case["names"]]
    f = sumpf.Merge(singles).output() if len(singles) > 1 else singles[0]
    filtered = f * s
    other = s * f
    scale = float(numpy.abs(filtered.channels()).max()) if filtered.channels().size else 0.0
    close(other.channels(), filtered.channels(), "signal * filter in comparison to filter * signal", atol=1e-10 * scale)
    step = (f * s.fourier_transform()).inverse_fourier_transform()
    close(step.channels(), filtered.channels(), "filtering the spectrum", atol=1e-10 * scale)
    for c, single in enumerate(singles):
        x = single * s[c]
        close(x.channels()[0], filtered.channels()[c], f"filtering channel {c} separately", atol=1e-10 * scale)
    equal(filtered.length(), s.length(), "length of the filtered signal")
    close(filtered.sampling_rate(), s.sampling_rate(), "sampling rate of the filtered signal", rtol=1e-12)
    # linearity
    twice = f * (s * 2.0)
    close(twice.channels(), 2.0 * filtered.channels(), "filtering the doubled signal", atol=1e-10 * scale)
    # two filters in a row
    chain = f * (f * s)
    square = (f * f) * s
    spectrum = f.spectrum(resolution=s.sampling_rate() / s.length(), length=s.length() // 2 + 1)
    if (numpy.abs(spectrum.channels()[:, -1].imag) <= 1e-12 * numpy.abs(spectrum.channels()[:, -1])).all() and numpy.abs(spectrum.channels()[:, 0].imag).max() == 0 and not s.offset():
        if "bands" not in case["names"]:
            close(chain.channels(), square.channels(), "applying a filter twice", atol=1e-9 * float(numpy.abs(square.channels()).max()))
            ctx.label("chain")
    ctx.nontrivial_if(len(set(case["names"])) > 1)


SUBS = [
    Sub("sampling", call_case(), check_call, quick=6000, rule="a well-conditioned response with more than one channel or frequency"),
    Sub("data", data_case(), check_data, quick=8000, rule="more than one bin and a well-conditioned response"),
    Sub("relations", relation_case(), check_relation, quick=2000, rule="at least two different filters in one"),
    defaults.sub("P14", 200),
    large.sub("P14"),
]
ASSUMPTIONS = ["at 0 Hz the reference is the response of the single channel to a scalar frequency of zero", "values are compared where the naive evaluation of the transfer function is well-conditioned"]
