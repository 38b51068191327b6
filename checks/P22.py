"""Concatenation equals the ordered overlay of its current inputs"""

from hypothesis import strategies as st
import numpy
import sumpf
from vlib import gen, large, networks
from vlib.core import Sub, close, equal, fail, nearly


def reference(data):
    """Places the data sets one after another"""
    if len(data) == 1:
        return data[0]
    position = 0
    placed = []
    for d in data:
        position += d.offset()
        placed.append((position, d.channels()))
        position += d.length()
    start = min(p for p, _ in placed)
    stop = max(p + x.shape[-1] for p, x in placed)
    shape = tuple(max(x.shape[k] for _, x in placed) for k in range(placed[0][1].ndim - 1)) + (stop - start,)
    result = numpy.zeros(shape, dtype=numpy.result_type(numpy.float64, *(x for _, x in placed)))
    for p, x in placed:
        region = tuple(slice(0, n) for n in x.shape[0:-1]) + (slice(p - start, p - start + x.shape[-1]),)
        result[region] += x
    labels = tuple(f"Concatenation {k}" for k in range(1, shape[0] + 1))
    if isinstance(data[0], sumpf.Signal):
        return sumpf.Signal(channels=result, sampling_rate=data[0].sampling_rate(), offset=start, labels=labels)
    return sumpf.Spectrogram(channels=result, resolution=data[0].resolution(), sampling_rate=data[0].sampling_rate(), offset=start, labels=labels)


def compare(actual, expected, scale, what):
    gen.check_meta(actual, what, cls=type(expected), sr=expected.sampling_rate(), offset=expected.offset(), labels=expected.labels(), shape=expected.channels().shape)
    if isinstance(expected, sumpf.Spectrogram):
        nearly(actual.resolution(), expected.resolution(), f"{what}: resolution")
    equal(numpy.iscomplexobj(actual.channels()), numpy.iscomplexobj(expected.channels()), f"{what}: complexity of the data")
    close(actual.channels(), expected.channels(), f"{what}: data", rtol=1e-13, atol=1e-13 * scale)


def full_reference(node):
    return reference(node.data(full_reference))


def check_history(case, ctx):
    def check(node, what):
        inputs = node.data(full_reference)
        expected = reference(inputs)
        scale = max(float(numpy.abs(d.channels()).max()) for d in inputs)
        result = node.block.output()
        compare(result, expected, scale, f"{what} with {len(inputs)} inputs")
        # the same result is computed by a new instance
        compare(sumpf.Concatenate(inputs).output(), expected, scale, f"{what}: new instance with {len(inputs)} inputs")
        ctx.nontrivial_if(len(inputs) > 1)
        return len(inputs)
    networks.run(case, lambda data, mode: sumpf.Concatenate(data), None, check, ctx)
    ctx.label(case["kind"])


def check_replacements(case, ctx):
    def check(block, data, what):
        scale = max(float(numpy.abs(d.channels()).max()) for d in data)
        compare(block.output(), reference(data), scale, f"{what} with {len(data)} inputs")
    networks.run_replacements(case, lambda data, mode: sumpf.Concatenate(data), check, ctx)
    ctx.label(case["kind"])


# ---------------------------------------------------------------------------
# the overlay of many data sets
# ---------------------------------------------------------------------------


@st.composite
def overlays(draw):
    kind = draw(st.sampled_from(["Signal", "Signal", "Spectrogram"]))
    return {"kind": kind, "d": draw(st.lists(networks.data_sets(kind), min_size=2, max_size=7)), "how": draw(st.sampled_from(["constructor", "add", "function"]))}


def check_overlay(case, ctx):
    data = [networks.make(d) for d in case["d"]]
    if case["how"] == "function":
        # the concatenation is associative, if the positions of the data sets are the same
        block = sumpf.Concatenate(data)
        result = block.output()
        equal(block.output() is result or block.output() == result, True, "the second output equals the first one")
    elif case["how"] == "add":
        block = sumpf.Concatenate()
        for d in data:
            block.add(d)
        result = block.output()
    else:
        result = sumpf.Concatenate(tuple(data)).output()
    snapshot = gen.Snapshot(*data)
    expected = reference(data)
    compare(result, expected, max(float(numpy.abs(d.channels()).max()) for d in data), f"concatenation of {len(data)} data sets")
    snapshot.check("concatenation")
    position = 0
    spans = []
    for d in data:
        position += d.offset()
        spans.append((position, position + d.length()))
        position += d.length()
    spans.sort()
    if any(b[0] < a[1] for a, b in zip(spans, spans[1:])):
        ctx.label("overlap")
    if any(b[0] > a[1] for a, b in zip(spans, spans[1:])):
        ctx.label("gap")
    if any(b[1] < max(s[1] for s in spans[:k + 1]) for k, b in enumerate(spans[1:])):
        ctx.label("contained")
    ctx.nontrivial_if(len({d.channels().shape[0:-1] for d in data}) > 1 or any(d.offset() for d in data))


def check_empty(case, ctx):
    """Without any inputs, an error is raised"""
    block = sumpf.Concatenate()
    ids = [block.add(networks.make(d)) for d in case]
    for i in ids:
        block.remove(i)
    ctx.nontrivial_if(bool(ids))
    try:
        block.output()
    except RuntimeError:
        return
    fail("the output of an empty concatenation did not raise a RuntimeError")


SUBS = [Sub("history", networks.histories(("Signal", "Signal", "Spectrogram")), check_history, 1600, rule="the concatenation of at least two data sets is computed"),
        Sub("replacements", networks.replacements(("Signal", "Signal", "Spectrogram")), check_replacements, 600, rule="a data set is stored at the address of a previous one"),
        Sub("overlay", overlays(), check_overlay, 3000, rule="the data sets have offsets or different numbers of channels or frequencies"),
        Sub("empty", st.lists(networks.data_sets("Signal"), max_size=3), check_empty, 200, rule="data sets have been added and removed"),
        large.sub("P22")]
