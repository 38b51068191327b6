"""Spectrum arithmetic is bin-wise with documented broadcasting"""

import operator
from hypothesis import strategies as st
import numpy
import sumpf
from vlib import algebra, gen, large
from vlib.core import Reject, Sub, close, equal, require, same_array

OPS = ("+", "-", "*", "/", "**")
CHANNELS = [(1, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (4, 2), (1, 2), (2, 4)]


@st.composite
def pair_case(draw):
    c1, c2 = draw(st.sampled_from(CHANNELS))
    n = draw(gen.sizes(1, 9))
    a = draw(gen.spectrums(channels=st.just(c1), lengths=st.just(n)))
    b = draw(gen.spectrums(channels=st.just(c2), lengths=st.just(n)))
    if draw(st.booleans()):
        b["r"] = a["r"]
    return {"a": a, "b": b, "op": draw(st.sampled_from(OPS)), "alias": draw(st.integers(0, 9)) == 0}


def check_pair(case, ctx):
    op = case["op"]
    a, ma = gen.make(case["a"]), algebra.M.of(case["a"])
    if case["alias"]:
        b, mb = a, ma
    else:
        b, mb = gen.make(case["b"]), algebra.M.of(case["b"])
        ctx.nontrivial_if(True)
        ctx.label(f"channels {len(a)},{len(b)}")
    snapshot = gen.Snapshot(a, b)
    if algebra.integer_power(op, a, b):
        raise Reject()
    with numpy.errstate(all="ignore"):
        result = algebra.OPS[op][0](a, b)
    algebra.compare(result, algebra.binary(ma, mb, op), f"spectrum {op} spectrum")
    snapshot.check(f"spectrum {op} spectrum")


def array_operand(shape):
    c, n = shape
    shapes = [(n,), (c, n), (1, n), (c, 1), (1, 1), (1,)]
    return st.one_of(
        st.integers(-5, 5).map(lambda v: {"k": "int", "v": v}),
        st.one_of(gen.small_float, st.sampled_from([0.5, -0.5, 1.5, 1 / 3])).map(lambda v: {"k": "float", "v": v}),
        gen.complex_number.map(lambda v: {"k": "complex", "v": v}),
        st.integers(-5, 5).map(lambda v: {"k": "npint", "v": v}),
        gen.small_float.map(lambda v: {"k": "npfloat", "v": v}),
        gen.complex_number.map(lambda v: {"k": "npcomplex", "v": v}),
        gen.arrays((1,), cplx=True).map(lambda v: {"k": "array0", "v": v}),
        st.sampled_from(shapes).flatmap(lambda s: st.tuples(st.sampled_from(["array", "array", "list", "tuple"]),
                                                            st.booleans().flatmap(lambda c: gen.arrays(s, cplx=c))).map(lambda t: {"k": t[0], "v": t[1]})),
    )


@st.composite
def array_case(draw):
    a = draw(gen.spectrums(channels=(1, 3), lengths=gen.sizes(1, 8)))
    return {"a": a, "x": draw(array_operand(a["a"]["shape"])), "op": draw(st.sampled_from(OPS)), "swap": draw(st.booleans())}


def check_array(case, ctx):
    op = case["op"]
    a, m = gen.make(case["a"]), algebra.M.of(case["a"])
    x = algebra.operand(case["x"])
    ctx.nontrivial_if(case["x"]["k"] not in ("int", "float"))
    ctx.label(("right:" if case["swap"] else "left:") + case["x"]["k"])
    reference = numpy.array(x)
    snapshot = gen.Snapshot(a)
    if algebra.integer_power(op, a, x):
        raise Reject()
    with numpy.errstate(all="ignore"):
        result = algebra.OPS[op][0](x, a) if case["swap"] else algebra.OPS[op][0](a, x)
    what = f"{case['x']['k']} {op} spectrum" if case["swap"] else f"spectrum {op} {case['x']['k']}"
    algebra.compare(result, algebra.with_array(m, reference, op, case["swap"]), what)
    snapshot.check(what)
    same_array(numpy.array(x), reference, f"{what}: the other operand has been modified")


@st.composite
def unary_case(draw):
    return {"a": draw(gen.spectrums(channels=(1, 4), lengths=gen.sizes(1, 40))), "op": draw(st.sampled_from(["abs", "neg", "invert", "conjugate", "invert2"]))}


def check_unary(case, ctx):
    a, m = gen.make(case["a"]), algebra.M.of(case["a"])
    snapshot = gen.Snapshot(a)
    op = case["op"]
    ctx.nontrivial_if(m.data.size > 1)
    with numpy.errstate(all="ignore"):
        if op == "abs":
            result, expected = abs(a), numpy.sqrt(m.data.real ** 2 + m.data.imag ** 2)
        elif op == "neg":
            result, expected = -a, -m.data
        elif op == "invert":
            result, expected = ~a, 1.0 / m.data
        elif op == "invert2":
            if (m.data == 0.0).any():
                result, expected = -(-a), m.data
            else:
                result, expected = ~~a, m.data
        else:
            result, expected = a.conjugate(), m.data.real - 1j * m.data.imag
    algebra.compare(result, algebra.M("Spectrum", expected, res=m.res, labels=m.labels), op)
    snapshot.check(op)


@st.composite
def programs(draw):
    n = draw(st.integers(2, 4))
    length = draw(st.integers(1, 6))
    inputs = [draw(gen.spectrums(channels=(1, 3), lengths=st.just(length), kinds=("normal", "int", "positive"), scales=(1.0,))) for _ in range(n)]
    steps = []
    size = n
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["b", "b", "b", "i", "x", "n", "a", "c"]))
        if kind in "bi":
            steps.append([kind, draw(st.sampled_from(["+", "-", "*", "/"])), draw(st.integers(0, size - 1)), draw(st.integers(0, size - 1))])
        elif kind == "x":
            steps.append([kind, draw(st.sampled_from(["+", "-", "*", "/"])), draw(st.integers(0, size - 1)), draw(st.integers(-3, 3)), draw(st.booleans())])
        else:
            steps.append([kind, draw(st.integers(0, size - 1))])
        size += 1
    return {"inputs": inputs, "steps": steps}


INPLACE = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}


def check_program(case, ctx):
    objects = [gen.make(c) for c in case["inputs"]]
    models = [algebra.M.of(c) for c in case["inputs"]]
    states = [gen.Snapshot(o) for o in objects]
    with numpy.errstate(all="ignore"):
        for i, s in enumerate(case["steps"]):
            if s[0] in "bi":
                _, op, j, k = s
                o = (algebra.OPS[op][0] if s[0] == "b" else INPLACE[op])(objects[j], objects[k])
                m = algebra.binary(models[j], models[k], op)
            elif s[0] == "x":
                _, op, j, v, swap = s
                o = algebra.OPS[op][0](v, objects[j]) if swap else algebra.OPS[op][0](objects[j], v)
                m = algebra.with_array(models[j], v, op, swap)
            else:
                old = models[s[1]]
                fn, o = {"n": (numpy.negative, lambda x: -x), "a": (numpy.abs, abs), "c": (numpy.conjugate, lambda x: x.conjugate())}[s[0]]
                o = o(objects[s[1]])
                m = algebra.M("Spectrum", fn(old.data), res=old.res, labels=old.labels)
            algebra.compare(o, m, f"step {i} {s}")
            m.data = numpy.array(o.channels())
            objects.append(o)
            models.append(m)
            states.append(gen.Snapshot(o))
    ctx.nontrivial_if(len(case["steps"]) > 1)
    for i, s in enumerate(states):
        s.check(f"after the whole program, object {i}")


@st.composite
def relation_case(draw):
    n = draw(st.integers(1, 200))
    return {"a": draw(gen.spectrums(channels=(1, 3), lengths=st.just(n), kinds=("normal", "uniform"), scales=(1.0,))),
            "b": draw(gen.spectrums(channels=(1, 3), lengths=st.just(n), kinds=("normal", "uniform"), scales=(1.0,)))}


def check_relations(case, ctx):
    a, b = gen.make(case["a"]), gen.make(case["b"])
    ctx.nontrivial_if(len(a) != len(b))
    close((a + b).channels(), (b + a).channels(), "a + b and b + a")
    close((a * b).channels(), (b * a).channels(), "a * b and b * a")
    close((a - b).channels(), (-(b - a)).channels(), "a - b and -(b - a)", atol=1e-12)
    close((a - b).channels(), (a + (-b)).channels(), "a - b and a + (-b)", atol=1e-12)
    close((a * b).conjugate().channels(), (a.conjugate() * b.conjugate()).channels(), "conjugate of a product", atol=1e-12)
    require((a + b) == (a + b), "the same computation gave different results")
    equal(isinstance(a + b, sumpf.Spectrum), True, "type")


SUBS = [
    Sub("pair", pair_case(), check_pair, quick=8000, rule="two different spectrums (equal length, any combination of channel counts), combined by one of five operators"),
    Sub("array", array_case(), check_array, quick=9000, rule="spectrum combined with a complex or numpy scalar, array, list or tuple on either side"),
    Sub("unary", unary_case(), check_unary, quick=2000, rule="unary operation on more than one bin"),
    Sub("program", programs(), check_program, quick=2000, rule="more than one step in an expression program"),
    Sub("relation", relation_case(), check_relations, quick=800, rule="spectrums with a different number of channels"),
    large.sub("P02"),
]
ASSUMPTIONS = ["channels are complex128 (or float64) arrays with at least one channel and one bin; both spectrums have the same length"]
