"""Merging equals the channel-wise combination of its current inputs"""

from hypothesis import strategies as st
import numpy
import sumpf
from vlib import gen, large, networks
from vlib.core import Sub, equal, fail, nearly, same_array

MODES = ["FIRST_DATASET_FIRST", "FIRST_CHANNELS_FIRST"]
FREQUENCIES = numpy.array([0.5, 3.0, 20.0, 123.0, 1000.0])


def order(data, mode):
    """the sequence of (data set, channel) in the merged data set"""
    everything = [(k, c) for k, d in enumerate(data) for c in range(len(d))]
    if mode == "FIRST_CHANNELS_FIRST":
        everything.sort(key=lambda t: (t[1], t[0]))
    return everything


def reference(data, mode):
    if len(data) == 1:
        return data[0]
    sequence = order(data, mode)
    first = data[0]
    labels = [data[k].labels()[c] for k, c in sequence]
    if isinstance(first, sumpf.Filter):
        return sumpf.Filter(transfer_functions=[data[k].transfer_functions()[c] for k, c in sequence], labels=labels)
    offsets = [0 if isinstance(first, sumpf.Spectrum) else d.offset() for d in data]
    start = min(offsets)
    stop = max(o + d.length() for o, d in zip(offsets, data))
    bins = () if first.channels().ndim == 2 else (max(d.channels().shape[1] for d in data),)
    result = numpy.zeros((len(sequence),) + bins + (stop - start,), dtype=numpy.result_type(*(d.channels() for d in data)))
    for row, (k, c) in zip(result, sequence):
        x = data[k].channels()[c]
        region = tuple(slice(0, n) for n in x.shape[0:-1]) + (slice(offsets[k] - start, offsets[k] - start + x.shape[-1]),)
        row[region] = x
    if isinstance(first, sumpf.Signal):
        return sumpf.Signal(channels=result, sampling_rate=first.sampling_rate(), offset=start, labels=labels)
    if isinstance(first, sumpf.Spectrum):
        return sumpf.Spectrum(channels=result, resolution=first.resolution(), labels=labels)
    return sumpf.Spectrogram(channels=result, resolution=first.resolution(), sampling_rate=first.sampling_rate(), offset=start, labels=labels)


def compare(actual, expected, what):
    if isinstance(expected, sumpf.Filter):
        equal(isinstance(actual, sumpf.Filter), True, f"{what}: the result is a filter")
        equal(tuple(actual.labels()), tuple(expected.labels()), f"{what}: labels")
        equal(len(actual), len(expected), f"{what}: number of channels")
        # the same terms are evaluated, so the responses must be bitwise the same
        for k, (a, b) in enumerate(zip(actual.transfer_functions(), expected.transfer_functions())):
            with numpy.errstate(all="ignore"):
                try:
                    y = sumpf.Filter(transfer_functions=[b], labels=["x"])(FREQUENCIES)[0]
                except ZeroDivisionError:   # a division by the constant zero (the generator may build that)
                    continue
                x = sumpf.Filter(transfer_functions=[a], labels=["x"])(FREQUENCIES)[0]
                same_array(numpy.broadcast_to(x, FREQUENCIES.shape), numpy.broadcast_to(y, FREQUENCIES.shape), f"{what}: response of channel {k}")
        return
    spectrum = isinstance(expected, sumpf.Spectrum)
    gen.check_meta(actual, what, cls=type(expected), sr=None if spectrum else expected.sampling_rate(), offset=None if spectrum else expected.offset(),
                   labels=expected.labels(), shape=expected.channels().shape)
    if not isinstance(expected, sumpf.Signal):
        nearly(actual.resolution(), expected.resolution(), f"{what}: resolution")
    same_array(actual.channels(), expected.channels(), f"{what}: data")


def full_reference(node):
    return reference(node.data(full_reference), node.mode)


def create(data, mode):
    return sumpf.Merge(data, mode=getattr(sumpf.Merge.modes, mode)) if mode != MODES[0] or len(data) != 1 else sumpf.Merge(data)


def check_history(case, ctx):
    def check(node, what):
        inputs = node.data(full_reference)
        expected = reference(inputs, node.mode)
        compare(node.block.output(), expected, f"{what}, {node.mode} with {len(inputs)} inputs")
        compare(create(inputs, node.mode).output(), expected, f"{what}: new instance, {node.mode} with {len(inputs)} inputs")
        ctx.nontrivial_if(len(inputs) > 1)
        return len(inputs)
    networks.run(case, create, lambda block, mode: block.set_mode(getattr(sumpf.Merge.modes, mode)), check, ctx)
    ctx.label(case["kind"])


def check_replacements(case, ctx):
    def check(block, data, what):
        compare(block.output(), reference(data, case["mode"]), f"{what} with {len(data)} inputs, {case['mode']}")
    networks.run_replacements(case, create, check, ctx)
    ctx.label(case["kind"])


@st.composite
def merges(draw):
    kind = draw(st.sampled_from(["Signal", "Signal", "Spectrum", "Spectrogram", "Filter"]))
    return {"kind": kind, "d": draw(st.lists(networks.data_sets(kind, max_channels=5), min_size=2, max_size=6)), "mode": draw(st.sampled_from(MODES)), "how": draw(st.sampled_from(["constructor", "add", "mode"]))}


def check_merge(case, ctx):
    data = [networks.make(d) for d in case["d"]]
    snapshot = gen.Snapshot(*data)
    mode = getattr(sumpf.Merge.modes, case["mode"])
    if case["how"] == "constructor":
        result = sumpf.Merge(tuple(data), mode=mode).output()
    elif case["how"] == "add":
        block = sumpf.Merge(mode=mode)
        for d in data:
            block.add(d)
        result = block.output()
    else:
        block = sumpf.Merge(data, mode=[m for m in sumpf.Merge.modes if m is not mode][0])
        block.output()
        equal(block.set_mode(mode) is block, True, "set_mode returns the block")
        result = block.output()
    compare(result, reference(data, case["mode"]), f"merging {len(data)} data sets, {case['mode']}")
    snapshot.check("merging")
    ctx.label(case["kind"], case["mode"])
    ctx.nontrivial_if(len({len(d) for d in data}) > 1)


def check_empty(case, ctx):
    block = sumpf.Merge()
    ids = [block.add(networks.make(d)) for d in case]
    for i in ids:
        block.remove(i)
    ctx.nontrivial_if(bool(ids))
    try:
        block.output()
    except RuntimeError:
        return
    fail("the output of an empty merge did not raise a RuntimeError")


SUBS = [Sub("history", networks.histories(("Signal", "Signal", "Spectrum", "Spectrogram", "Filter"), MODES), check_history, 1600, rule="the merge of at least two data sets is computed"),
        Sub("replacements", networks.replacements(("Signal", "Signal", "Spectrum", "Spectrogram", "Filter"), MODES), check_replacements, 600, rule="a data set is stored at the address of a previous one"),
        Sub("merge", merges(), check_merge, 3000, rule="the data sets have different numbers of channels"),
        Sub("empty", st.lists(networks.data_sets("Spectrum"), max_size=3), check_empty, 200, rule="data sets have been added and removed"),
        large.sub("P23")]
