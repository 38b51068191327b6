"""Signal arithmetic is sample-wise on the common time axis"""

import operator
from hypothesis import strategies as st
import numpy
import sumpf
from vlib import algebra, gen, large
from vlib.core import Reject, Sub, close, equal, require, same_array

OPS = ("+", "-", "*", "/", "%", "**")


@st.composite
def signal_pair(draw):
    relation = draw(st.sampled_from(["free", "free", "free", "equal", "same_range", "adjacent", "disjoint", "inside", "straddle", "same_time"]))
    c1, c2 = draw(st.sampled_from([(1, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (4, 2), (1, 2)]))
    n1 = draw(gen.sizes(1, 12))
    n2 = draw(gen.sizes(1, 12))
    o1 = draw(st.integers(-15, 15))
    o2 = draw(st.integers(-15, 15))
    if relation == "equal":
        c2, n2, o2 = c1, n1, o1
    elif relation in ("same_range", "same_time"):
        n2, o2 = n1, o1
    elif relation == "adjacent":
        o2 = o1 + n1 if draw(st.booleans()) else o1 - n2
    elif relation == "disjoint":
        gap = draw(st.integers(1, 9))
        o2 = o1 + n1 + gap if draw(st.booleans()) else o1 - n2 - gap
    elif relation == "inside":
        n1 = max(n1, 3)
        n2 = draw(st.integers(1, n1 - 1))
        o2 = o1 + draw(st.integers(0, n1 - n2))
    elif relation == "straddle":
        o2 = o1 + draw(st.integers(0, n1 - 1))
    a = draw(gen.signals(channels=st.just(c1), lengths=st.just(n1), offset=st.just(o1)))
    b = draw(gen.signals(channels=st.just(c2), lengths=st.just(n2), offset=st.just(o2)))
    if draw(st.booleans()):
        b["sr"] = a["sr"]
    if relation == "same_time":     # the same start in seconds, but not in samples
        factor = draw(st.sampled_from([2, 3, 4]))
        b["sr"], b["o"] = factor * a["sr"], factor * a["o"]
    if draw(st.booleans()):
        a, b = b, a
    return {"a": a, "b": b}


pair_case = st.tuples(signal_pair(), st.sampled_from(OPS), st.integers(0, 9)).map(lambda t: {**t[0], "op": t[1], "alias": t[2] == 0})


def classify(a, b):
    sa, sb = (a["o"], a["o"] + a["a"]["shape"][1]), (b["o"], b["o"] + b["a"]["shape"][1])
    if sa == sb:
        return "same range"
    if sa[1] <= sb[0] or sb[1] <= sa[0]:
        return "no overlap"
    return "partial overlap"


def check_pair(case, ctx):
    op = case["op"]
    a = gen.make(case["a"])
    ma = algebra.M.of(case["a"])
    if case["alias"]:
        b, mb = a, ma
    else:
        b, mb = gen.make(case["b"]), algebra.M.of(case["b"])
        ctx.nontrivial_if(case["a"]["o"] != case["b"]["o"] or case["a"]["a"]["shape"] != case["b"]["a"]["shape"])
        ctx.label(classify(case["a"], case["b"]))
    snapshot = gen.Snapshot(a, b)
    if op == "**" and a.channels().dtype.kind == "i" and b.channels().dtype.kind == "i":
        raise Reject()      # NumPy doesn't allow negative exponents for integers
    result = algebra.OPS[op][0](a, b)
    model = algebra.binary(ma, mb, op)
    algebra.compare(result, model, f"signal {op} signal", exact=(op == "%"))
    snapshot.check(f"signal {op} signal")


def array_operand(shape):
    """strategy for numbers and arrays, that can be broadcast to the given shape"""
    c, n = shape
    shapes = [(n,), (c, n), (1, n), (c, 1), (1, 1), (1,)]
    return st.one_of(
        st.integers(-5, 5).map(lambda v: {"k": "int", "v": v}),
        st.one_of(gen.small_float, st.sampled_from([0.5, -0.5, 1.5, 1 / 3])).map(lambda v: {"k": "float", "v": v}),
        st.integers(-5, 5).map(lambda v: {"k": "npint", "v": v}),
        gen.small_float.map(lambda v: {"k": "npfloat", "v": v}),
        gen.arrays((1,)).map(lambda v: {"k": "array0", "v": v}),
        st.sampled_from(shapes).flatmap(lambda s: st.tuples(st.sampled_from(["array", "array", "list", "tuple"]), gen.arrays(s)).map(lambda t: {"k": t[0], "v": t[1]})),
    )


@st.composite
def array_case(draw):
    a = draw(gen.signals(channels=(1, 3), lengths=gen.sizes(1, 9)))
    return {"a": a, "x": draw(array_operand(a["a"]["shape"])), "op": draw(st.sampled_from(OPS)), "swap": draw(st.booleans())}


def check_array(case, ctx):
    op = case["op"]
    a = gen.make(case["a"])
    x = algebra.operand(case["x"])
    m = algebra.M.of(case["a"])
    ctx.nontrivial_if(case["x"]["k"] not in ("int", "float"))
    ctx.label(("right:" if case["swap"] else "left:") + case["x"]["k"])
    reference = numpy.array(x)
    snapshot = gen.Snapshot(a)
    if op == "**" and a.channels().dtype.kind == "i" and reference.dtype.kind == "i":
        raise Reject()
    with numpy.errstate(all="ignore"):
        result = algebra.OPS[op][0](x, a) if case["swap"] else algebra.OPS[op][0](a, x)
    what = f"{case['x']['k']} {op} signal" if case["swap"] else f"signal {op} {case['x']['k']}"
    model = algebra.with_array(m, reference, op, case["swap"])
    algebra.compare(result, model, what, exact=(op == "%"))
    snapshot.check(what)
    same_array(numpy.array(x), reference, f"{what}: the other operand has been modified")


# programs: expression trees over several signals, in which all intermediate results have to stay intact

@st.composite
def programs(draw):
    n = draw(st.integers(2, 4))
    inputs = [draw(gen.signals(channels=(1, 3), lengths=(1, 8), kinds=("normal", "int", "positive"), scales=(1.0,))) for _ in range(n)]
    steps = []
    size = n
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["b", "b", "b", "b", "n", "a", "x", "i"]))
        if kind in "bi":
            steps.append([kind, draw(st.sampled_from(["+", "-", "*", "/", "%"])), draw(st.integers(0, size - 1)), draw(st.integers(0, size - 1))])
        elif kind == "x":
            steps.append([kind, draw(st.sampled_from(["+", "-", "*", "/"])), draw(st.integers(0, size - 1)), draw(st.integers(-3, 3)), draw(st.booleans())])
        else:
            steps.append([kind, draw(st.integers(0, size - 1))])
        size += 1
    return {"inputs": inputs, "steps": steps}


INPLACE = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "%": operator.imod}


def check_program(case, ctx):
    objects = [gen.make(c) for c in case["inputs"]]
    models = [algebra.M.of(c) for c in case["inputs"]]
    states = [gen.Snapshot(o) for o in objects]
    with numpy.errstate(all="ignore"):
        for i, s in enumerate(case["steps"]):
            if s[0] in "bi":
                _, op, j, k = s
                fn = algebra.OPS[op][0] if s[0] == "b" else INPLACE[op]
                o = fn(objects[j], objects[k])
                m = algebra.binary(models[j], models[k], op)
            elif s[0] == "x":
                _, op, j, v, swap = s
                o = algebra.OPS[op][0](v, objects[j]) if swap else algebra.OPS[op][0](objects[j], v)
                m = algebra.with_array(models[j], v, op, swap)
            elif s[0] == "n":
                o = -objects[s[1]]
                m = models[s[1]]
                m = algebra.M("Signal", -m.data, m.offset, m.sr, labels=m.labels)
            else:
                o = abs(objects[s[1]])
                m = models[s[1]]
                m = algebra.M("Signal", numpy.abs(m.data), m.offset, m.sr, labels=m.labels)
            # continue with the values of the implementation in order to not accumulate rounding errors
            algebra.compare(o, m, f"step {i} {s}", exact=(s[0] in "bi" and s[1] == "%"))
            m.data = numpy.array(o.channels())
            objects.append(o)
            models.append(m)
            states.append(gen.Snapshot(o))
    ctx.nontrivial_if(len(case["steps"]) > 1)
    for i, s in enumerate(states):
        s.check(f"after the whole program, object {i}")


# algebraic relations on longer signals (metamorphic)

@st.composite
def relation_case(draw):
    a = draw(gen.signals(channels=(1, 3), lengths=(1, 300), offset=st.integers(-200, 200), kinds=("normal", "uniform"), scales=(1.0,)))
    b = draw(gen.signals(channels=(1, 3), lengths=(1, 300), offset=st.integers(-200, 200), kinds=("normal", "uniform"), scales=(1.0,)))
    return {"a": a, "b": b}


def check_relations(case, ctx):
    a, b = gen.make(case["a"]), gen.make(case["b"])
    ctx.nontrivial_if(a.offset() != b.offset())
    s, t = a + b, b + a
    equal(s.offset(), t.offset(), "a + b and b + a: offset")
    close(s.channels(), t.channels(), "a + b and b + a")
    p, q = a * b, b * a
    close(p.channels(), q.channels(), "a * b and b * a")
    d, e = a - b, -(b - a)
    equal(d.offset(), e.offset(), "a - b and -(b - a): offset")
    close(d.channels(), e.channels(), "a - b and -(b - a)", atol=1e-12)
    u = a + (-b)
    equal(d.offset(), u.offset(), "a - b and a + (-b): offset")
    close(d.channels(), u.channels(), "a - b and a + (-b)", atol=1e-12)
    k = 7
    shifted = a.shift(k) + b.shift(k)
    equal(shifted.offset(), s.offset() + k, "shifting both summands by the same delay: offset")
    same_array(shifted.channels(), s.channels(), "shifting both summands by the same delay")
    require((s == a + b) and (d == a - b), "the same computation gave different results")


SUBS = [
    Sub("pair", pair_case, check_pair, quick=9000, rule="two signals with different offset, length or number of channels, combined by one of six operators"),
    Sub("array", array_case(), check_array, quick=7000, rule="signal combined with a numpy scalar, array, list or tuple on either side"),
    Sub("program", programs(), check_program, quick=2500, rule="more than one step in an expression program"),
    Sub("relation", relation_case(), check_relations, quick=800, rule="signals with different offsets"),
    large.sub("P01"),
]
ASSUMPTIONS = ["channels are float64 arrays with at least one channel and one sample; the offset is an integer"]
