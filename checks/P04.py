"""Indexing selects exactly the addressed channels, bins and samples"""

from hypothesis import strategies as st
import numpy
import sumpf
from vlib import gen, large
from vlib.core import Sub, equal, same_array, close, require
from vlib.gen import check_meta

# ---------------------------------------------------------------------------
# keys
# ---------------------------------------------------------------------------


def _int_key(n):
    return st.integers(-n, max(n - 1, 0)) if n else st.integers(-2, 2)


unit_float = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, -0.5, 0.25, -0.25, 0.75, 0.1, -0.1, 0.9]),
                       st.floats(-1.0, 1.0, allow_nan=False).map(lambda x: round(x, 3)))


def bound(n):
    return st.one_of(st.none(), st.integers(-n - 3, n + 3), st.integers(0, n), unit_float)


@st.composite
def axis_key(draw, n):
    k = draw(st.integers(0, 9))
    if k < 2:
        return {"k": "int", "v": draw(_int_key(n))}
    if k < 4:
        return {"k": "float", "v": draw(unit_float)}
    step = draw(st.sampled_from([None, None, None, 1, 2, 3, -1, -2]))
    return {"k": "slice", "v": [draw(bound(n)), draw(bound(n)), step]}


@st.composite
def key_for(draw, shape):
    k = draw(st.integers(0, 5))
    if k == 0:
        return draw(axis_key(shape[0]))
    axes = len(shape)
    if axes == 3 and k == 1:
        axes = 2
    if axes == 1:
        return draw(axis_key(shape[0]))
    return {"k": "tuple", "v": [draw(axis_key(n)) for n in shape[:axes]]}


def build_key(k):
    if k["k"] == "tuple":
        return tuple(build_key(x) for x in k["v"])
    if k["k"] == "slice":
        return slice(*k["v"])
    return k["v"]


# ---------------------------------------------------------------------------
# the model: a list of selected indices per axis
# ---------------------------------------------------------------------------


def scaled(f, n):
    """candidates for the integer, to which a float is mapped (two at a tie)"""
    x = f * n
    lower = int(numpy.floor(x))
    fraction = x - lower
    if abs(fraction - 0.5) < 1e-9:
        candidates = [lower, lower + 1]
    else:
        candidates = [lower if fraction < 0.5 else lower + 1]
    if n == 0:
        return [0]
    return [c if c >= 0 else c + n for c in candidates]


def axis_candidates(key, n):
    """all acceptable lists of indices (more than one only, if a float is exactly between two indices)"""
    if key["k"] == "int":
        i = key["v"]
        if i < 0:
            i += n
        return [[i] if 0 <= i < n else []]
    if key["k"] == "float":
        return [[i] if 0 <= i < n else [] for i in scaled(key["v"], n - 1)]
    start, stop, step = key["v"]
    starts = scaled(start, n) if isinstance(start, float) else [start]
    stops = scaled(stop, n) if isinstance(stop, float) else [stop]
    return [list(range(n))[slice(a, b, step)] for a in starts for b in stops]


def candidates(key, shape):
    keys = key["v"] if key["k"] == "tuple" else [key]
    keys = list(keys) + [{"k": "slice", "v": [None, None, None]}] * (len(shape) - len(keys))
    result = [[]]
    for k, n in zip(keys, shape):
        result = [r + [c] for r in result for c in axis_candidates(k, n)]
    return result


def forward(key, axis):
    """True, if the key for the given axis has no negative step"""
    keys = key["v"] if key["k"] == "tuple" else [key]
    if axis >= len(keys) or keys[axis]["k"] != "slice":
        return True
    return keys[axis]["v"][2] is None or keys[axis]["v"][2] > 0


def compare(result, case, what):
    obj_case, key = case["a"], case["key"]
    data = numpy.array(gen.make_array(obj_case["a"]))
    shape = data.shape
    labels = gen.full_labels(obj_case)
    options = candidates(key, shape)
    matching = []
    for o in options:
        if result.channels().shape == tuple(len(x) for x in o):
            expected = data[numpy.ix_(*o)] if all(len(x) for x in o) else numpy.empty([len(x) for x in o])
            if numpy.array_equal(expected, result.channels()) and tuple(result.labels()) == tuple(labels[i] for i in o[0]):
                matching.append(o)
    if not matching:
        o = next((x for x in options if tuple(len(y) for y in x) == tuple(result.channels().shape)), options[0])
        equal(tuple(result.channels().shape), tuple(len(x) for x in o), f"{what}: shape")
        same_array(result.channels(), data[numpy.ix_(*o)], what)
        equal(tuple(result.labels()), tuple(labels[i] for i in o[0]), f"{what}: labels")
    t = obj_case["t"]
    check_meta(result, what, cls={"Signal": sumpf.Signal, "Spectrum": sumpf.Spectrum, "Spectrogram": sumpf.Spectrogram}[t],
               sr=obj_case.get("sr"), res=obj_case.get("r"))
    if t != "Spectrum":
        time_axis = len(shape) - 1
        if matching[0][time_axis] and forward(key, time_axis):
            offsets = [obj_case["o"] + o[time_axis][0] for o in matching]
            require(result.offset() in offsets, lambda: f"{what}: offset is {result.offset()} instead of {offsets[0]}")
    return matching[0]


@st.composite
def index_case(draw):
    a = draw(st.one_of(gen.signals(channels=gen.sizes(1, 4, big=(5, 8, 17), rare=12), lengths=gen.sizes(1, 12)),
                       gen.spectrums(channels=gen.sizes(1, 4, big=(5, 8, 17), rare=12), lengths=gen.sizes(1, 12)),
                       gen.spectrograms(channels=(1, 4), bins=gen.sizes(1, 6, big=(33, 100)), lengths=gen.sizes(1, 9, big=(40, 101)))))
    # distinguishable values
    shape = a["a"]["shape"]
    a["a"] = {"shape": shape, "seed": draw(st.integers(0, 10 ** 6)), "kind": "normal", "scale": 1.0, **({} if a["t"] == "Signal" else {"c": 1}),
              **({"layout": a["a"]["layout"]} if "layout" in a["a"] else {})}
    a["l"] = [f"c{i}" for i in range(shape[0])] if draw(st.booleans()) else a["l"]
    return {"a": a, "key": draw(key_for(shape))}


def check_index(case, ctx):
    obj = gen.make(case["a"])
    snapshot = gen.Snapshot(obj)
    key = build_key(case["key"])
    result = obj[key]
    chosen = compare(result, case, f"{case['a']['t']}[{key}]")
    ctx.nontrivial_if(all(chosen) and numpy.prod([len(c) for c in chosen]) < numpy.prod(case["a"]["a"]["shape"]))
    ctx.label(case["a"]["t"], "empty" if not all(chosen) else "selected")
    snapshot.check("indexing")


# ---------------------------------------------------------------------------
# filters
# ---------------------------------------------------------------------------


@st.composite
def filter_case(draw):
    n = draw(st.integers(1, 5))
    return {"n": n, "labels": draw(gen.labels(n)), "key": draw(axis_key(n)), "bands": draw(st.booleans())}


def check_filter(case, ctx):
    n = case["n"]
    if case["bands"]:
        f = sumpf.Filter(transfer_functions=[sumpf.Bands({10.0: i + 1.0, 1000.0: i + 1.5}).transfer_functions()[0] for i in range(n)], labels=case["labels"] or ())
    else:
        f = sumpf.Filter(transfer_functions=[sumpf.Filter.Polynomial((float(i + 1), 0.5)) for i in range(n)], labels=case["labels"] or ())
    full = f(37.0)
    labels = f.labels()
    key = build_key(case["key"])
    options = axis_candidates(case["key"], n)
    if not any(options):
        from vlib.core import Reject
        raise Reject()
    part = f[key]
    require(isinstance(part, sumpf.Filter), "type of an indexed filter")
    ok = [o for o in options if len(part) == len(o) and tuple(part.labels()) == tuple(labels[i] for i in o)]
    require(ok, lambda: f"Filter[{key}] has {len(part)} channels with labels {part.labels()}, expected the channels {options[0]} of {labels}")
    values = numpy.ravel(part(37.0))
    require(any(numpy.array_equal(values, [full[i] for i in o]) for o in ok), lambda: f"Filter[{key}]({37.0}) is {values.tolist()}, expected the channels {options[0]} of {full}")
    ctx.nontrivial_if(len(ok[0]) < n)


# ---------------------------------------------------------------------------
# relations: composition and splitting
# ---------------------------------------------------------------------------

@st.composite
def split_case(draw):
    a = draw(st.one_of(gen.signals(channels=(1, 3), lengths=(2, 30), kinds=("normal",)),
                       gen.spectrograms(channels=(1, 2), bins=(1, 4), lengths=(2, 12), kinds=("normal",))))
    n = a["a"]["shape"][-1]
    k = draw(st.integers(1, n - 1))
    return {"a": a, "k": k, "form": draw(st.sampled_from(["int", "negative"])), "m": draw(st.integers(0, n - 1))}


def check_split(case, ctx):
    a = gen.make(case["a"])
    n = a.length()
    k = case["k"] if case["form"] == "int" else case["k"] - n
    lead = (slice(None),) * (len(a.shape()) - 1)
    first, second = a[lead + (slice(None, k),)], a[lead + (slice(k, None),)]
    ctx.nontrivial_if(a.offset() != 0)
    joined = first + second
    same_array(joined.channels(), a.channels(), "sum of the two parts of a split signal")
    equal(joined.offset(), a.offset(), "offset of the sum of the two parts of a split signal")
    # successive slices are the same as one slice
    m = case["m"]
    if k < 0:
        k += n
    twice = a[lead + (slice(k, None),)][lead + (slice(min(m, n - k - 1), None),)]
    once = a[lead + (slice(k + min(m, n - k - 1), None),)]
    require(twice == once, "successive slices differ from a single slice")
    # each sample keeps its point in time
    one = a[lead + (slice(m, m + 1),)]
    close(one.time_samples(), a.time_samples()[m:m + 1], "time of a single sample", atol=1e-9 / a.sampling_rate())
    same_array(one.channels(), a.channels()[..., m:m + 1], "single sample")
    last = a[lead + (-1,)]
    same_array(last.channels(), a.channels()[..., n - 1:], "last sample")
    close(last.time_samples(), a.time_samples()[n - 1:], "time of the last sample", atol=1e-9 / a.sampling_rate())


SUBS = [
    Sub("index", index_case(), check_index, quick=14000, rule="the key selects a non-empty, proper part of the data"),
    Sub("filter", filter_case(), check_filter, quick=2000, rule="the key selects a proper part of the filter's channels"),
    Sub("split", split_case(), check_split, quick=3000, rule="split objects with an offset other than zero"),
    large.sub("P04"),
]
ASSUMPTIONS = ["keys are int, float in [-1, 1], slices (with int or float bounds, int steps) or tuples of at least two of these; floats exactly between two indices may be rounded either way",
               "the offset is only checked for non-empty selections without a negative step"]
