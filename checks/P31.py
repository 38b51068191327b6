"""What has no defined result is refused and has no effect"""

import operator

from hypothesis import strategies as st
import numpy
import sumpf
from checks import P22, P23
from vlib import fakejack, filters, gen, networks
from vlib.core import Sub, equal, fail, require, same_array

KINDS = ("Signal", "Spectrum", "Spectrogram", "Filter")


def refused(function, what):
    """Checks, that the given function raises an error"""
    try:
        result = function()
    except Exception as e:      # pylint: disable=broad-except; the documentation does not specify the type of the errors
        if isinstance(e, MemoryError):
            fail(f"{what} exhausts the memory")
        return type(e).__name__
    fail(f"{what} returns a {type(result).__name__} instead of raising an error")
    return None


# ---------------------------------------------------------------------------
# operators
# ---------------------------------------------------------------------------

OPERATORS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "%": operator.mod, "**": operator.pow,
             "//": operator.floordiv, "@": operator.matmul, "&": operator.and_, "|": operator.or_, "^": operator.xor, "<<": operator.lshift, ">>": operator.rshift, "divmod": divmod,
             "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
INPLACE = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "%": operator.imod, "**": operator.ipow,
           "//": operator.ifloordiv, "@": operator.imatmul, "&": operator.iand, "|": operator.ior, "^": operator.ixor, "<<": operator.ilshift, ">>": operator.irshift}
COMMON = ("+", "-", "*", "/", "**")
# the operations, that are defined between data sets and filters
DEFINED = {("Signal", "Signal"): COMMON + ("%",), ("Spectrum", "Spectrum"): COMMON, ("Spectrogram", "Spectrogram"): COMMON,
           ("Signal", "Spectrogram"): COMMON, ("Spectrogram", "Signal"): COMMON, ("Spectrum", "Spectrogram"): COMMON, ("Spectrogram", "Spectrum"): COMMON,
           ("Filter", "Filter"): ("+", "-", "*", "/"), ("Filter", "Signal"): ("*",), ("Filter", "Spectrum"): ("*",), ("Filter", "Spectrogram"): ("*",),
           ("Signal", "Filter"): ("*",), ("Spectrum", "Filter"): ("*",), ("Spectrogram", "Filter"): ("*",)}
FOREIGN = ("None", "str", "bytes", "dict", "set", "object", "strings", "class", "function", "window class", "Ellipsis", "slice")


def foreign(name):
    return {"None": None, "str": "abc", "bytes": b"abc", "dict": {}, "set": {1}, "object": object(), "strings": ["a", "b"], "class": sumpf.Signal, "function": len,
            "window class": sumpf.HannWindow, "Ellipsis": Ellipsis, "slice": slice(0, 2)}[name]


@st.composite
def operator_cases(draw):
    how = draw(st.sampled_from(["kinds", "kinds", "foreign", "foreign", "sizes", "sizes", "numbers"]))
    case = {"how": how, "inplace": draw(st.booleans())}
    if how == "kinds":      # two objects, between which the operator is not defined
        a, b = draw(st.sampled_from(KINDS)), draw(st.sampled_from(KINDS))
        case["op"] = draw(st.sampled_from(sorted(set(OPERATORS) - set(DEFINED.get((a, b), ())))))
        case["a"], case["b"] = draw(networks.data_sets(a)), draw(networks.data_sets(b))
    elif how == "foreign":  # one of the objects neither is a data set or a filter nor a number or an array
        case["op"] = draw(st.sampled_from(COMMON + tuple(OPERATORS)))
        case["a"], case["f"] = draw(networks.data_sets(draw(st.sampled_from(KINDS)))), draw(st.sampled_from(FOREIGN))
        case["swap"] = draw(st.booleans())
    elif how == "numbers":  # numbers and arrays with an operator, that is not defined for anything
        case["op"] = draw(st.sampled_from(("//", "@", "&", "|", "^", "<<", ">>", "divmod")))
        case["a"], case["n"] = draw(networks.data_sets(draw(st.sampled_from(KINDS)))), draw(st.sampled_from([2, 2.5, "numpy", "array", "list"]))
        case["swap"] = draw(st.booleans())
    else:                   # data sets, whose sizes don't fit to each other
        k = draw(st.sampled_from(["Spectrum", "Filter", "Spectrogram", "array"]))
        case["k"] = k
        case["op"] = draw(st.sampled_from(("+", "-", "*", "/") if k == "Filter" else COMMON))
        n, m = draw(st.lists(st.integers(2, 7), min_size=2, max_size=2, unique=True))
        if k == "Spectrum":
            case["a"], case["b"] = draw(gen.spectrums(lengths=(n, n))), draw(gen.spectrums(lengths=(m, m)))
        elif k == "Spectrogram":
            case["a"], case["b"] = draw(gen.spectrograms(bins=(n, n))), draw(gen.spectrums(lengths=(m, m)))
            if draw(st.booleans()):
                case["a"], case["b"] = case["b"], case["a"]
        elif k == "Filter":
            case["a"], case["b"] = draw(filters.filters(channels=(n, n), leaves=filters.polynomial(), max_leaves=1)), draw(filters.filters(channels=(m, m), leaves=filters.polynomial(), max_leaves=1))
        else:
            case["a"] = draw(st.one_of(gen.signals(lengths=(n, n)), gen.spectrums(lengths=(n, n)), gen.spectrograms(lengths=(n, n))))
            case["m"] = m
            case["swap"] = draw(st.booleans())
    return case


def check_operator(case, ctx):
    a = networks.make(case["a"])
    how = case["how"]
    if "b" in case:
        b = networks.make(case["b"])
        objects = [a, b]
    else:
        if how == "foreign":
            b = foreign(case["f"])
        elif how == "numbers":
            b = {"numpy": numpy.float64(2.0), "array": numpy.array([1.0, 2.0]), "list": [1.0, 2.0]}.get(case["n"], case["n"])
        else:
            b = numpy.arange(1.0, case["m"] + 1.0)
        objects = [a]
    if case.get("swap"):
        a, b = b, a
    if isinstance(a, (str, bytes)) and case["op"] == "%":
        return      # this is the formatting of a string
    if len(objects) == 1 and "Filter" in (case["a"]["t"],) and how == "sizes":
        return
    snapshot = gen.Snapshot(*objects)
    # the in-place operators of foreign containers iterate over the other operand
    function = INPLACE[case["op"]] if case["inplace"] and case["op"] in INPLACE and not case.get("swap") else OPERATORS[case["op"]]
    what = f"{type(a).__name__} {case['op']} {type(b).__name__}"
    error = refused(lambda: function(a, b), what)
    snapshot.check(f"the refused operation {what}")
    ctx.nontrivial_if(True)
    ctx.label(how, error, case["op"])


# ---------------------------------------------------------------------------
# arguments of methods and constructors
# ---------------------------------------------------------------------------

BAD = ("x", None, -1.5, "object", "enum")


def bad_argument(name):
    return {"object": object(), "enum": sumpf.Merge.modes.FIRST_DATASET_FIRST}.get(name, name)


ARGUMENTS = {
    "shift mode": lambda s, x: s.shift(2, mode=x), "convolution mode": lambda s, x: s.convolve(s, mode=x), "correlation mode": lambda s, x: s.correlate(s, mode=x),
    "file format": lambda s, x: s.save("file.dat", file_format=x), "flat top": lambda s, x: sumpf.FlatTopWindow(function=x, length=8), "nuttall": lambda s, x: sumpf.NuttallWindow(function=x, length=8),
    "interpolation": lambda s, x: sumpf.Bands({1.0: 2.0}, interpolations=x)(1.5), "extrapolation": lambda s, x: sumpf.Bands({1.0: 2.0}, extrapolations=x)(0.5),
    "merge mode": lambda s, x: sumpf.Merge([s, s], mode=x if not isinstance(x, sumpf.Merge.modes) else "y").output(),
    "window": lambda s, x: s.short_time_fourier_transform(window=numpy.ones((2, 2, 2)) if x is None else x, overlap=1),
    "convolution partner": lambda s, x: s.convolve(s.fourier_transform() if x is None else x),
    "spectrogram shift mode": lambda s, x: sumpf.Spectrogram(channels=numpy.ones((1, 2, 3))).shift(1, mode=x),
    "integration time": lambda s, x: s.level_vs_time({} if x is None or isinstance(x, float) else x),
}
# values, which are valid for the parameter, or for which the behaviour is not obvious
VALID = {("convolution partner", -1.5), ("flat top", None), ("nuttall", None), ("window", -1.5)}


@st.composite
def argument_cases(draw):
    what = draw(st.sampled_from(sorted(ARGUMENTS)))
    return {"what": what, "x": draw(st.sampled_from([b for b in BAD if (what, b) not in VALID])), "s": draw(gen.signals(lengths=(8, 12)))}


def check_argument(case, ctx):
    s = gen.make(case["s"])
    snapshot = gen.Snapshot(s)
    what = f"{case['what']} {case['x']!r}"
    error = refused(lambda: ARGUMENTS[case["what"]](s, bad_argument(case["x"])), what)
    snapshot.check(what)
    ctx.nontrivial_if(True)
    ctx.label(case["what"], error)


# ---------------------------------------------------------------------------
# processing blocks
# ---------------------------------------------------------------------------


@st.composite
def block_cases(draw):
    block = draw(st.sampled_from(["Merge", "Merge", "Concatenate"]))
    kind = draw(st.sampled_from(KINDS if block == "Merge" else ("Signal", "Spectrogram")))
    intruder = draw(st.sampled_from([k for k in KINDS + ("object",) if k != kind]))
    n = draw(st.integers(1, 4))
    shape = draw(st.booleans())     # intruders with one channel and one bin fit into other data by NumPy's broadcasting
    data = [draw(networks.data_sets(kind)) for _ in range(n)]
    if intruder == "object":
        d = {"t": "object"}
    elif shape and intruder == "Signal":
        d = draw(gen.signals(channels=(1, 1), lengths=(1, 4)))
    elif shape and intruder == "Spectrogram":
        d = draw(gen.spectrograms(channels=(1, 1), bins=(1, 1), lengths=(1, 4)))
    elif shape and intruder == "Spectrum":
        d = draw(gen.spectrums(channels=(1, 1), lengths=(1, 4)))
    else:
        d = draw(networks.data_sets(intruder))
    return {"block": block, "kind": kind, "d": data, "intruder": d, "where": draw(st.integers(0, n)), "how": draw(st.sampled_from(["remove", "replace", "replace first"])), "twice": draw(st.booleans()),
            "mode": draw(st.sampled_from(P23.MODES)), "before": draw(st.booleans()), "chain": draw(st.booleans()), "new": draw(networks.data_sets(kind))}


def check_block(case, ctx):
    def compare(data, what):
        if data:
            for b, name in ((block, what), (downstream, f"{what}, downstream")):
                if b is None:
                    continue
                if case["block"] == "Merge":
                    P23.compare(b.output(), P23.reference(data, case["mode"]), name)
                else:
                    P22.compare(b.output(), P22.reference(data), max(float(numpy.abs(d.channels()).max()) for d in data), name)

    def check_refused(what):
        for _ in range(2 if case["twice"] else 1):
            refused(block.output, what)
            if case["chain"]:
                refused(downstream.output, f"{what}, downstream")

    data = [networks.make(d) for d in case["d"]]
    intruder = object() if case["intruder"]["t"] == "object" else networks.make(case["intruder"])
    if case["block"] == "Merge":
        block, downstream = sumpf.Merge(mode=getattr(sumpf.Merge.modes, case["mode"])), sumpf.Merge()
    else:
        block, downstream = sumpf.Concatenate(), sumpf.Concatenate()
    if case["chain"]:
        downstream.add.connect(block.output)
    else:
        downstream = None
    snapshot = gen.Snapshot(*data, *([] if case["intruder"]["t"] == "object" else [intruder]))
    what = f"{case['block']} of {case['kind']}s and a {type(intruder).__name__}"
    ids = []
    for i, d in enumerate(data):
        if i == case["where"]:
            if case["before"]:
                compare(data[0:i], "before adding unlike data")
            ids.append(block.add(intruder))
        ids.append(block.add(d))
    if case["where"] == len(data):
        if case["before"]:
            compare(data, "before adding unlike data")
        ids.append(block.add(intruder))
    check_refused(what)
    snapshot.check(what)
    where = case["where"]
    if case["how"] == "remove":
        block.remove(ids[where])
        current = data
    else:
        new = networks.make(case["new"])
        if case["how"] == "replace first" and case["kind"] == "Filter" or len(data) > 1 and case["how"] == "replace first":
            # replacing another data set than the unlike one does not help
            i = 0 if where else 1
            if len(ids) > i:
                block.replace(ids[i], new)
                data = [new] + data[1:]
                check_refused(what)
        block.replace(ids[where], new)
        current = data[0:where] + [new] + data[where:]
    compare(current, f"{what} after it has been {case['how']}d")
    snapshot.check(f"{what} after it has been {case['how']}d")
    ctx.nontrivial_if(True)
    ctx.label(case["block"], f"{case['kind']} and {case['intruder']['t']}", case["how"], "chain" if case["chain"] else "single")


def check_nothing(case, ctx):
    """Blocks without data don't have an output"""
    block = sumpf.Merge() if case["block"] == "Merge" else sumpf.Concatenate()
    refused(block.output, f"{case['block']} of nothing")
    for d in case["d"]:
        x = networks.make(d)
        i = block.add(x)
        require(block.output() is x or block.output() == x, f"{case['block']} of one data set")
        block.remove(i)
        refused(block.output, f"{case['block']} of nothing after removing the data set")
    ctx.nontrivial_if(case["d"])


@st.composite
def nothing_cases(draw):
    return {"block": draw(st.sampled_from(["Merge", "Concatenate"])), "d": draw(st.lists(networks.data_sets(draw(st.sampled_from(["Signal", "Spectrogram"]))), max_size=3))}


# ---------------------------------------------------------------------------
# ports of a JACK client
# ---------------------------------------------------------------------------


@st.composite
def port_cases(draw):
    ports = draw(st.integers(1, 3))
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        steps.append({"op": draw(st.sampled_from(["good", "bad", "bad", "bad", "remove"])), "k": draw(st.integers(0, 2)), "j": draw(st.integers(0, 2)),
                      "bad": draw(st.sampled_from(["unknown", "", "SuMPF:unknown", "system:capture_9", 7, None, 1.5, "object", "direction", "prefix", "suffix"])), "side": draw(st.booleans())})
    return {"ports": ports, "in": draw(st.integers(1, 3)), "out": draw(st.integers(1, 3)), "auto": draw(st.booleans()), "steps": steps}


def check_ports(case, ctx):
    server = fakejack.server = fakejack.Server(samplerate=48000, ports=case["ports"])
    names = [f"in {k}" for k in range(case["in"])]
    jack = sumpf.Jack(name="SuMPF", input_signal=sumpf.Signal(channels=numpy.ones((case["out"], 5)), labels=[f"out {k}" for k in range(case["out"])]), input_ports=names, auto_deactivate=case["auto"])
    links = set()
    for step in case["steps"]:
        k, j = step["k"], step["j"]
        if step["op"] == "good":
            if step["side"]:
                jack.connect(f"out {k % case['out']}", f"system:playback_{j % case['ports'] + 1}")
                links.add((f"SuMPF:out {k % case['out']}", f"system:playback_{j % case['ports'] + 1}"))
            else:
                jack.connect(f"system:capture_{j % case['ports'] + 1}", names[k % len(names)])
                links.add((f"system:capture_{j % case['ports'] + 1}", f"SuMPF:{names[k % len(names)]}"))
            continue
        before = list(server.connections)
        bad = {"object": object(), "direction": "system:playback_1" if step["side"] else "system:capture_1", "prefix": "SuMPF:out" if step["side"] else "SuMPF:in",
               "suffix": "out 0 " if step["side"] else "in 0 "}.get(step["bad"], step["bad"])
        what = f"{step['op']} {bad!r}"
        if step["op"] == "remove":
            error = refused(lambda: jack.remove_input_port("unknown" if isinstance(bad, int) else bad), what)  # pylint: disable=cell-var-from-loop
        elif step["side"]:
            error = refused(lambda: jack.connect(bad, f"in {k % case['in']}"), what)    # pylint: disable=cell-var-from-loop
        else:
            error = refused(lambda: jack.connect(f"out {k % case['out']}", bad), what)  # pylint: disable=cell-var-from-loop
        equal(server.connections, before, f"{what}: the connections")
        equal(list(jack.input_ports()), names, f"{what}: the input ports")
        ctx.nontrivial_if(True)
        ctx.label(step["op"], error)
    jack.activate()     # restores the connections
    equal(set(server.connections), links, "the connections of the active client")
    equal(len(server.connections), len(links), "the number of connections of the active client")


SUBS = [Sub("operators", operator_cases(), check_operator, quick=8000, rule="an operator is applied to operands, for which no result is defined"),
        Sub("arguments", argument_cases(), check_argument, quick=1200, rule="all cases"),
        Sub("blocks", block_cases(), check_block, quick=3000, rule="all cases"),
        Sub("nothing", nothing_cases(), check_nothing, quick=200, rule="data sets have been added and removed"),
        Sub("ports", port_cases(), check_ports, quick=600, rule="an unknown port has been specified")]
ASSUMPTIONS = ["any exception other than a MemoryError counts as an error", "the stand-in for the JACK server of P27"]
