"""Spectrogram arithmetic is bin-wise on the common time axis"""

from hypothesis import strategies as st
import numpy
from vlib import algebra, gen, large
from vlib.core import Reject, Sub, close, equal, same_array

OPS = ("+", "-", "*", "/", "**")
CHANNELS = [(1, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (1, 2)]


@st.composite
def relative(draw, n1, n2):
    """offsets for two data sets of the given lengths"""
    o1 = draw(st.integers(-9, 9))
    relation = draw(st.sampled_from(["free", "free", "same", "adjacent", "disjoint", "inside"]))
    if relation == "same":
        o2 = o1
    elif relation == "adjacent":
        o2 = o1 + n1 if draw(st.booleans()) else o1 - n2
    elif relation == "disjoint":
        o2 = o1 + n1 + 3 if draw(st.booleans()) else o1 - n2 - 3
    elif relation == "inside":
        o2 = o1 + draw(st.integers(min(0, n1 - n2), max(0, n1 - n2)))
    else:
        o2 = draw(st.integers(-9, 9))
    return o1, o2


@st.composite
def pair_case(draw):
    kind = draw(st.sampled_from(["spectrogram"] * 5 + ["signal", "signal", "spectrum"]))
    c1, c2 = draw(st.sampled_from(CHANNELS))
    n1, n2 = draw(gen.sizes(1, 6, big=(64, 129, 500))), draw(gen.sizes(1, 6, big=(63, 128, 511)))
    b1 = draw(gen.sizes(1, 4, big=(33, 129)))
    b2 = draw(st.one_of(st.just(b1), st.integers(1, 4)))
    o1, o2 = draw(relative(n1, n2))
    a = draw(gen.spectrograms(channels=st.just(c1), bins=st.just(b1), lengths=st.just(n1), offset=st.just(o1)))
    if kind == "spectrogram":
        b = draw(gen.spectrograms(channels=st.just(c2), bins=st.just(b2), lengths=st.just(n2), offset=st.just(o2)))
    elif kind == "signal":
        b = draw(gen.signals(channels=st.just(c2), lengths=st.just(n2), offset=st.just(o2)))
    else:
        b = draw(gen.spectrums(channels=st.just(c2), lengths=st.just(b1)))
    if draw(st.booleans()):
        for k in ("sr", "r"):
            if k in b:
                b[k] = a[k]
    if draw(st.booleans()):
        a, b = b, a
    return {"a": a, "b": b, "op": draw(st.sampled_from(OPS))}


def check_pair(case, ctx):
    op = case["op"]
    a, b = gen.make(case["a"]), gen.make(case["b"])
    ma, mb = algebra.M.of(case["a"]), algebra.M.of(case["b"])
    kinds = f"{ma.kind} {op} {mb.kind}"
    ctx.nontrivial_if(ma.kind != mb.kind or ma.offset != mb.offset or ma.data.shape != mb.data.shape)
    ctx.label(f"{ma.kind},{mb.kind}")
    snapshot = gen.Snapshot(a, b)
    if algebra.integer_power(op, a, b):
        raise Reject()
    with numpy.errstate(all="ignore"):
        result = algebra.OPS[op][0](a, b)
    algebra.compare(result, algebra.binary(ma, mb, op), kinds)
    snapshot.check(kinds)


def array_operand(shape):
    c, b, n = shape
    shapes = [(n,), (b, n), (c, b, n), (1, b, n), (c, 1, n), (c, b, 1), (1, 1, 1), (1,), (b, 1)]
    return st.one_of(
        st.integers(-5, 5).map(lambda v: {"k": "int", "v": v}),
        st.one_of(gen.small_float, st.sampled_from([0.5, -0.5, 1.5, 1 / 3])).map(lambda v: {"k": "float", "v": v}),
        gen.complex_number.map(lambda v: {"k": "complex", "v": v}),
        st.integers(-5, 5).map(lambda v: {"k": "npint", "v": v}),
        gen.small_float.map(lambda v: {"k": "npfloat", "v": v}),
        gen.complex_number.map(lambda v: {"k": "npcomplex", "v": v}),
        st.sampled_from(shapes).flatmap(lambda s: st.tuples(st.sampled_from(["array", "array", "list", "tuple"]),
                                                            st.booleans().flatmap(lambda c: gen.arrays(s, cplx=c))).map(lambda t: {"k": t[0], "v": t[1]})),
    )


@st.composite
def array_case(draw):
    a = draw(gen.spectrograms(channels=(1, 3), bins=(1, 4), lengths=(1, 5)))
    return {"a": a, "x": draw(array_operand(a["a"]["shape"])), "op": draw(st.sampled_from(OPS)), "swap": draw(st.booleans())}


def check_array(case, ctx):
    op = case["op"]
    a, m = gen.make(case["a"]), algebra.M.of(case["a"])
    x = algebra.operand(case["x"])
    ctx.nontrivial_if(case["x"]["k"] not in ("int", "float"))
    ctx.label(("right:" if case["swap"] else "left:") + case["x"]["k"])
    reference = numpy.array(x)
    snapshot = gen.Snapshot(a)
    if algebra.integer_power(op, a, x):
        raise Reject()
    with numpy.errstate(all="ignore"):
        result = algebra.OPS[op][0](x, a) if case["swap"] else algebra.OPS[op][0](a, x)
    what = f"{case['x']['k']} {op} spectrogram" if case["swap"] else f"spectrogram {op} {case['x']['k']}"
    algebra.compare(result, algebra.with_array(m, reference, op, case["swap"]), what)
    snapshot.check(what)
    same_array(numpy.array(x), reference, f"{what}: the other operand has been modified")


@st.composite
def unary_case(draw):
    return {"a": draw(gen.spectrograms(channels=(1, 4), bins=(1, 8), lengths=(1, 12))), "op": draw(st.sampled_from(["abs", "neg", "conjugate"]))}


def check_unary(case, ctx):
    a, m = gen.make(case["a"]), algebra.M.of(case["a"])
    snapshot = gen.Snapshot(a)
    op = case["op"]
    ctx.nontrivial_if(m.data.size > 1)
    if op == "abs":
        result, expected = abs(a), numpy.sqrt(m.data.real ** 2 + m.data.imag ** 2)
    elif op == "neg":
        result, expected = -a, -m.data
    else:
        result, expected = a.conjugate(), m.data.real - 1j * m.data.imag
    algebra.compare(result, algebra.M("Spectrogram", expected, m.offset, m.sr, m.res, m.labels), op)
    snapshot.check(op)


@st.composite
def programs(draw):
    n = draw(st.integers(2, 3))
    inputs = [draw(gen.spectrograms(channels=(1, 3), bins=(1, 3), lengths=(1, 4), offset=st.integers(-4, 4), kinds=("normal", "int", "positive"), scales=(1.0,))) for _ in range(n)]
    inputs.append(draw(gen.signals(channels=(1, 3), lengths=(1, 5), offset=st.integers(-4, 4), kinds=("normal", "int", "positive"), scales=(1.0,))))
    steps = []
    size = len(inputs)
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["b", "b", "b", "x", "n"]))
        if kind == "b":
            steps.append([kind, draw(st.sampled_from(["+", "-", "*", "/"])), draw(st.integers(0, size - 1)), draw(st.integers(0, size - 1))])
        elif kind == "x":
            steps.append([kind, draw(st.sampled_from(["+", "-", "*", "/"])), draw(st.integers(0, size - 1)), draw(st.integers(-3, 3)), draw(st.booleans())])
        else:
            steps.append([kind, draw(st.integers(0, size - 1))])
        size += 1
    return {"inputs": inputs, "steps": steps}


def check_program(case, ctx):
    objects = [gen.make(c) for c in case["inputs"]]
    models = [algebra.M.of(c) for c in case["inputs"]]
    states = [gen.Snapshot(o) for o in objects]
    with numpy.errstate(all="ignore"):
        for i, s in enumerate(case["steps"]):
            if s[0] == "b":
                _, op, j, k = s
                o = algebra.OPS[op][0](objects[j], objects[k])
                m = algebra.binary(models[j], models[k], op)
            elif s[0] == "x":
                _, op, j, v, swap = s
                o = algebra.OPS[op][0](v, objects[j]) if swap else algebra.OPS[op][0](objects[j], v)
                m = algebra.with_array(models[j], v, op, swap)
            else:
                old = models[s[1]]
                o = -objects[s[1]]
                m = algebra.M(old.kind, -old.data, old.offset, old.sr, old.res, old.labels)
            algebra.compare(o, m, f"step {i} {s}")
            m.data = numpy.array(o.channels())
            objects.append(o)
            models.append(m)
            states.append(gen.Snapshot(o))
    ctx.nontrivial_if(len(case["steps"]) > 1)
    for i, s in enumerate(states):
        s.check(f"after the whole program, object {i}")


@st.composite
def relation_case(draw):
    kw = dict(channels=(1, 3), bins=(1, 12), lengths=(1, 30), offset=st.integers(-25, 25), kinds=("normal", "uniform"), scales=(1.0,))
    return {"a": draw(gen.spectrograms(**kw)), "b": draw(gen.spectrograms(**kw))}


def check_relations(case, ctx):
    a, b = gen.make(case["a"]), gen.make(case["b"])
    ctx.nontrivial_if(a.offset() != b.offset() and a.shape()[1] != b.shape()[1])
    s, t = a + b, b + a
    equal(s.offset(), t.offset(), "a + b and b + a: offset")
    close(s.channels(), t.channels(), "a + b and b + a")
    close((a * b).channels(), (b * a).channels(), "a * b and b * a")
    d, e = a - b, -(b - a)
    close(d.channels(), e.channels(), "a - b and -(b - a)", atol=1e-12)
    shifted = a.shift(5) + b.shift(5)
    equal(shifted.offset(), s.offset() + 5, "shifting both summands: offset")
    same_array(shifted.channels(), s.channels(), "shifting both summands")


SUBS = [
    Sub("pair", pair_case(), check_pair, quick=8000, rule="spectrogram combined with a spectrogram of different offset or shape, with a signal or with a spectrum in either order"),
    Sub("array", array_case(), check_array, quick=7000, rule="spectrogram combined with a complex or numpy scalar, array, list or tuple on either side"),
    Sub("unary", unary_case(), check_unary, quick=1500, rule="unary operation on more than one bin"),
    Sub("program", programs(), check_program, quick=2000, rule="more than one step in an expression program"),
    Sub("relation", relation_case(), check_relations, quick=800, rule="spectrograms, which differ in offset and number of bins"),
    large.sub("P03"),
]
ASSUMPTIONS = ["channels are complex128 (or float64) arrays without empty axes; spectrums have as many bins as the spectrogram"]
