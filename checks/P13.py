"""Filter arithmetic is pointwise arithmetic of transfer functions"""

from hypothesis import strategies as st
import numpy
import sumpf
from vlib import filters, gen
from vlib.core import Reject, Sub, equal, fail, require

log_frequency = st.one_of(st.floats(-1.5, 4.0).map(lambda x: float(numpy.round(10.0 ** x, 3))), st.integers(1, 2000).map(float))


def _zero_division(evaluation, e):
    if evaluation.zero_division:
        raise Reject()
    raise e


# ---------------------------------------------------------------------------
# terms
# ---------------------------------------------------------------------------

@st.composite
def term_case(draw):
    return {"x": draw(filters.trees(filters.plain_leaves, draw(st.sampled_from([2, 3, 4, 6, 10])))),
            "f": draw(st.lists(log_frequency, min_size=1, max_size=5)),
            "zero": draw(st.booleans())}


def check_term(case, ctx):
    evaluation = filters.Evaluation(case["f"])
    expected = evaluation(case["x"])
    try:
        term = filters.build(case["x"])
    except ZeroDivisionError as e:
        _zero_division(evaluation, e)
    before = repr(term)
    filter_ = sumpf.Filter(transfer_functions=(term,))
    actual, = filter_(numpy.array(case["f"]))
    n = filters.compare(actual, expected, "frequency response of the term")
    kinds = filters.kinds(case["x"])
    ctx.nontrivial_if(n and len(kinds) >= 2)
    ctx.label("decidable" if n else "undecidable", "transform" if evaluation.transformed else "no transform", *sorted(kinds))
    # sampling as a spectrum
    resolution = case["f"][0]
    k = 4
    sampled = filter_.spectrum(resolution=resolution, length=k)
    e2 = filters.Evaluation(resolution * numpy.arange(1, k))
    filters.compare(sampled.channels()[0, 1:], e2(case["x"]), "spectrum of the term")
    # a scalar
    value, = filter_(case["f"][0])
    filters.compare(numpy.reshape(value, (1,)), filters.Value(expected.v[:1], expected.e[:1]), "term at a scalar frequency")
    # a frequency of 0 Hz
    if not filters.has_transform(case["x"]):
        e0 = filters.Evaluation([0.0] + case["f"])
        filters.compare(filter_([0.0] + case["f"])[0], e0(case["x"]), "frequency response including 0 Hz")
        filters.compare(sampled.channels()[0, 0:1], filters.Evaluation([0.0])(case["x"]), "spectrum at 0 Hz")
    # a zero term, that is claimed to be zero, has to be zero
    if term.is_zero():
        decidable = numpy.isfinite(expected.e)
        if (numpy.abs(expected.v[decidable]) > 50 * expected.e[decidable] + 1e-280).any():
            fail("the term is considered to be zero, but it is not")
    equal(repr(term), before, "representation of the term after its evaluation")


# ---------------------------------------------------------------------------
# bands in terms
# ---------------------------------------------------------------------------

@st.composite
def bands_case(draw):
    common = sorted(set(draw(st.lists(st.one_of(st.integers(1, 100).map(float), st.sampled_from([0.5, 12.5, 31.5, 250.0])), min_size=1, max_size=4))))
    bands = filters.bands_term(common=common)
    leaves = st.one_of(bands, bands, bands, filters.plain_leaves)
    return {"x": draw(filters.trees(leaves, draw(st.sampled_from([2, 3, 5, 7])))), "f": common}


def check_bands(case, ctx):
    evaluation = filters.Evaluation(case["f"])
    expected = evaluation(case["x"])
    try:
        term = filters.build(case["x"])
    except ZeroDivisionError as e:
        _zero_division(evaluation, e)
    kinds = filters.kinds(case["x"])
    filter_ = sumpf.Filter(transfer_functions=(term,))
    actual, = filter_(numpy.array(case["f"]))
    n = filters.compare(actual, expected, "frequency response of bands at the supporting points")
    ctx.nontrivial_if(n and "Bands" in kinds and len(kinds) >= 2)
    ctx.label(*sorted(kinds))
    # the result for one frequency does not depend on the other ones
    value, = filter_(case["f"][-1])
    filters.compare(numpy.reshape(value, (1,)), filters.Value(expected.v[-1:], expected.e[-1:]), "bands at a scalar frequency")


@st.composite
def mixed_case(draw):
    """Bands, that are combined with something else, so that the values between the supporting points are specified as well"""
    def bands():
        return draw(filters.bands_term())
    others = filters.trees(filters.plain_leaves, 3)
    x = bands()
    ys = [gen.dec(y) for y in x["ys"]]
    for _ in range(draw(st.integers(1, 3))):
        op = draw(st.sampled_from(["+", "-", "*", "/", "Sum", "Product", "Difference", "Quotient", "Absolute2"]))
        o = draw(st.one_of(others, others, filters.constant()))
        if op == "Absolute2":
            x = {"t": "abs", "x": {"t": "+", "a": x, "b": o}}
        elif op in ("Sum", "Product"):
            x = {"t": op, "xs": draw(st.permutations([x, o, draw(filters.constant())])), "tr": False}
        else:
            a, b = draw(st.permutations([x, o]))
            x = {"t": op, "a": a, "b": b}
            if op in ("Difference", "Quotient"):
                x["tr"] = draw(st.booleans())
    del ys
    return {"x": x, "f": draw(st.lists(st.floats(-0.5, 3.0).map(lambda v: float(numpy.round(10.0 ** v, 3))), min_size=1, max_size=5))}


def check_mixed(case, ctx):
    evaluation = filters.Evaluation(case["f"])
    expected = evaluation(case["x"])
    try:
        term = filters.build(case["x"])
    except ZeroDivisionError as e:
        _zero_division(evaluation, e)
    filter_ = sumpf.Filter(transfer_functions=(term,))
    actual, = filter_(numpy.array(case["f"]))
    n = filters.compare(actual, expected, "frequency response of bands in combination with other terms")
    ctx.nontrivial_if(n)
    ctx.label("decidable" if n else "undecidable")


# ---------------------------------------------------------------------------
# filters
# ---------------------------------------------------------------------------

numbers = st.one_of(filters.number_or_zero, st.sampled_from([1, 1.0, 0, -1]))


@st.composite
def filter_program(draw):
    n = draw(st.integers(2, 3))
    channels = draw(st.sampled_from([1, 2, 2, 3]))
    values = []
    for _ in range(n):
        c = draw(st.sampled_from([1, channels, channels]))
        values.append(draw(filters.filters(channels=(c, c), max_leaves=3)))
    steps = []
    count = n
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["ff", "ff", "ff", "fn", "fn", "nf", "nf", "u"]))
        a = draw(st.integers(0, count - 1))
        if kind == "ff":
            steps.append([kind, draw(st.sampled_from(["+", "-", "*", "/"])), a, draw(st.integers(0, count - 1))])
        elif kind in ("fn", "nf"):
            steps.append([kind, draw(st.sampled_from(["+", "-", "*", "/"])), a, draw(numbers), draw(st.sampled_from(["python", "numpy"]))])
        else:
            steps.append([kind, draw(st.sampled_from(["abs", "neg", "inv"])), a])
        count += 1
    return {"values": values, "steps": steps, "f": draw(st.lists(log_frequency, min_size=1, max_size=4))}


NAMES = {"+": "Sum", "-": "Difference", "*": "Product", "/": "Quotient"}


def apply(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    return a / b


def check_program(case, ctx):
    f = numpy.array(case["f"])
    evaluation = filters.Evaluation(f)
    objects, models, labels = [], [], []
    try:
        for v in case["values"]:
            objects.append(filters.make(v))
            models.append([evaluation(c) for c in v["c"]])
            labels.append(filters.full_labels(v))
    except ZeroDivisionError as e:
        for v in case["values"]:
            for c in v["c"]:
                evaluation(c)
        _zero_division(evaluation, e)
    decided = 0
    for step in case["steps"]:
        kind, op, i = step[:3]
        a, ma = objects[i], models[i]
        before = [repr(o) for o in objects]
        if kind == "ff":
            b, mb = objects[step[3]], models[step[3]]
            na, nb = len(ma), len(mb)
            if na != nb and 1 not in (na, nb):
                try:
                    apply(op, a, b)
                except ValueError:
                    objects.append(a)
                    models.append(ma)
                    labels.append(labels[i])
                    continue
                fail(f"combining filters with {na} and {nb} channels does not raise a ValueError")
            n = max(na, nb)
            pairs = [(ma[c if na > 1 else 0], mb[c if nb > 1 else 0]) for c in range(n)]
            model = [evaluation.divide(x, y) if op == "/" else apply(op, x, y) for x, y in pairs]
            expected_labels = (NAMES[op],) * n
            what = f"filter {op} filter"
        elif kind in ("fn", "nf"):
            number = gen.dec(step[3])
            if step[4] == "numpy" and not isinstance(number, int):
                number = numpy.complex128(number) if isinstance(number, complex) else numpy.float64(number)
            c = evaluation.constant(number)
            pairs = [(x, c) if kind == "fn" else (c, x) for x in ma]
            model = [evaluation.divide(x, y) if op == "/" else apply(op, x, y) for x, y in pairs]
            b = number
            expected_labels = labels[i]
            what = f"filter {op} number" if kind == "fn" else f"number {op} filter"
        else:
            model = [evaluation.divide(evaluation.constant(1.0), x) if op == "inv" else (abs(x) if op == "abs" else -x) for x in ma]
            expected_labels = labels[i]
            what = f"{op} of a filter"
        try:
            if kind == "u":
                r = ~a if op == "inv" else (abs(a) if op == "abs" else -a)
            elif kind == "nf":
                r = apply(op, b, a)
            else:
                r = apply(op, a, b)
        except ZeroDivisionError as e:
            _zero_division(evaluation, e)
        require(isinstance(r, sumpf.Filter), lambda: f"{what}: the result is a {type(r).__name__}")
        equal(len(r), len(model), f"{what}: number of channels")
        equal(tuple(r.labels()), tuple(expected_labels), f"{what}: labels")
        response = r(f)
        equal(len(response), len(model), f"{what}: number of channels of the response")
        for k, (x, m) in enumerate(zip(response, model)):
            decided += filters.compare(x, m, f"{what}: response of channel {k}")
        # the operands are not modified
        for o, t in zip(objects, before):
            equal(repr(o), t, f"{what}: operand after the operation")
        objects.append(r)
        models.append(model)
        labels.append(tuple(expected_labels))
        ctx.label(kind + op)
    # the original filters have still the same response
    for o, ms in zip(objects, models):
        for x, m in zip(o(f), ms):
            filters.compare(x, m, "response of an operand after the operations")
    ctx.nontrivial_if(decided and len(case["steps"]) > 1)


# ---------------------------------------------------------------------------
# bands filters in arithmetic
# ---------------------------------------------------------------------------

@st.composite
def bands_filter_case(draw):
    common = sorted(set(draw(st.lists(st.integers(1, 100).map(float), min_size=1, max_size=4))))
    n = draw(st.integers(1, 3))

    def channels(c):
        return [draw(filters.bands_term(common=common)) for _ in range(c)]
    return {"f": common, "a": channels(n), "b": channels(draw(st.sampled_from([1, n]))), "op": draw(st.sampled_from(["+", "-", "*", "/"])),
            "u": draw(st.sampled_from(["", "abs", "neg", "inv"])), "same": draw(st.booleans())}


def check_bands_filter(case, ctx):
    def make(channels):
        return sumpf.Bands(bands=[dict(zip(c["xs"], [gen.dec(y) for y in c["ys"]])) for c in channels],
                           interpolations=[c["i"] for c in channels], extrapolations=[c["e"] for c in channels])
    if case["same"]:
        for c in case["b"]:
            c.update(xs=case["a"][0]["xs"], i=case["a"][0]["i"], e=case["a"][0]["e"],
                     ys=(c["ys"] * len(case["a"][0]["xs"]))[:len(case["a"][0]["xs"])])
    a, b = make(case["a"]), make(case["b"])
    evaluation = filters.Evaluation(case["f"])
    ma, mb = [evaluation(c) for c in case["a"]], [evaluation(c) for c in case["b"]]
    n = max(len(ma), len(mb))
    model = [apply(case["op"], ma[c if len(ma) > 1 else 0], mb[c if len(mb) > 1 else 0]) for c in range(n)]
    r = apply(case["op"], a, b)
    u = case["u"]
    if u == "abs":
        r, model = abs(r), [abs(m) for m in model]
    elif u == "neg":
        r, model = -r, [-m for m in model]
    elif u == "inv":
        r, model = ~r, [evaluation.constant(1.0) / m for m in model]
    equal(len(r), n, "number of channels")
    equal(tuple(r.labels()), (NAMES[case["op"]],) * n, "labels")
    decided = 0
    for k, (x, m) in enumerate(zip(r(numpy.array(case["f"])), model)):
        decided += filters.compare(x, m, f"bands filter {case['op']} bands filter: channel {k}")
    ctx.nontrivial_if(decided)
    ctx.label(case["op"] + " " + u, "same" if case["same"] else "different")


SUBS = [
    Sub("terms", term_case(), check_term, quick=12000, rule="at least two kinds of terms and a well-conditioned response"),
    Sub("bands_terms", bands_case(), check_bands, quick=6000, rule="bands combined with at least one other operation and a well-conditioned response"),
    Sub("bands_between", mixed_case(), check_mixed, quick=5000, rule="a well-conditioned response"),
    Sub("filters", filter_program(), check_program, quick=7000, rule="at least two operations and a well-conditioned response"),
    Sub("bands_filters", bands_filter_case(), check_bands_filter, quick=3000, rule="a well-conditioned response"),
]
ASSUMPTIONS = ["the response is compared where the naive evaluation of the expression is well-conditioned (its error bound is below 1e-5 relative)",
               "frequencies are greater than zero, or zero for expressions without a lowpass-to-highpass transform"]
