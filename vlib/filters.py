"""Term trees as plain data: strategies, a builder for the real terms and a naive evaluator."""

import json
import math
from hypothesis import strategies as st
import numpy
import sumpf
from . import gen

EPS = 2.3e-16
F = sumpf.Filter
INTERPOLATIONS = [int(i) for i in sumpf.Bands.interpolations]
ZERO, ONE, LINEAR, LOGARITHMIC, LOG_X, LOG_Y, STAIRS_LIN, STAIRS_LOG = (int(getattr(sumpf.Bands.interpolations, n)) for n in (
    "ZERO", "ONE", "LINEAR", "LOGARITHMIC", "LOG_X", "LOG_Y", "STAIRS_LIN", "STAIRS_LOG"))

# ---------------------------------------------------------------------------
# strategies
# ---------------------------------------------------------------------------

real_number = st.one_of(st.sampled_from([1.0, -1.0, 2.0, 0.5, 1, -1, 3, -2]), st.floats(-5.0, 5.0).map(lambda x: float(numpy.round(x, 3))))
number = st.one_of(real_number, real_number, gen.complex_number)
number_or_zero = st.one_of(number, number, number, st.sampled_from([0.0, 0, -0.0]))
flag = st.booleans()
coefficients = st.lists(st.one_of(real_number, real_number, gen.complex_number, st.just(0.0)), min_size=0, max_size=4)


@st.composite
def constant(draw):
    return {"t": "Constant", "v": draw(number_or_zero)}


@st.composite
def polynomial(draw):
    scale = draw(st.sampled_from([1.0, 1e-2, 1e-3, 1e2]))
    c = draw(coefficients)
    n = len(c)
    # a scaled frequency variable keeps the summands of the polynomial comparable
    c = [x if scale == 1.0 else gen.enc(gen.dec(x) * scale ** (n - 1 - i)) for i, x in enumerate(c)]
    return {"t": "Polynomial", "c": c, "tr": draw(flag), "as": draw(st.sampled_from(["list", "tuple", "array"]))}


@st.composite
def exponential(draw):
    return {"t": "Exp", "k": draw(st.one_of(st.sampled_from([-1e-3, 1e-3, 0.0, -0.01]), st.floats(-0.05, 0.05).map(lambda x: float(numpy.round(x, 5))),
                                           st.tuples(st.floats(-0.01, 0.01), st.floats(-0.01, 0.01)).map(lambda t: {"re": round(t[0], 5), "im": round(t[1], 5)}))),
            "tr": draw(flag)}


@st.composite
def bands_term(draw, common=(), nonzero=True):
    """Bands, whose supporting points include the common frequencies"""
    extra = draw(st.lists(st.one_of(st.integers(1, 200).map(float), st.floats(0.5, 500.0).map(lambda x: float(numpy.round(x, 2)))), max_size=3 if common else 6))
    xs = sorted(set(common) | set(extra))
    if draw(st.integers(0, 3)) == 0 and common:
        xs = sorted(set(common))
    kind = draw(st.sampled_from(["positive", "real", "complex", "int"]))
    if kind == "positive":
        y = st.floats(0.01, 20.0).map(lambda x: float(numpy.round(x, 3)))
    elif kind == "int":
        y = st.integers(1, 9)
    elif kind == "real":
        y = real_number
    else:
        y = gen.complex_number
    if nonzero:
        y = y.filter(lambda v: abs(gen.dec(v)) > 1e-3)
    return {"t": "Bands", "common": bool(common), "xs": xs, "ys": draw(st.lists(y, min_size=len(xs), max_size=len(xs))),
            "i": draw(st.sampled_from(INTERPOLATIONS)), "e": draw(st.sampled_from(INTERPOLATIONS))}


def _sites(c, result):
    """Lists all places in the tree, that can be changed"""
    if isinstance(c, dict):
        if c.get("t") == "Constant":
            result.append((c, "v"))
        elif c.get("t") == "Exp":
            result.extend([(c, "k"), (c, "tr")])
        elif c.get("t") == "Polynomial":
            result.extend([(c, "c"), (c, "tr")] if c["c"] else [])
        elif c.get("t") == "Bands":
            result.extend([(c, "ys"), (c, "i"), (c, "e")] if c["xs"] else [])
            result.extend([(c, "xs"), (c, "n")] if c["xs"] and not c.get("common") else [])
        elif "tr" in c:
            result.append((c, "tr"))
        if c.get("t") in ("Difference", "Quotient", "-", "/") and "a" in c:
            result.append((c, "swap"))
        if len(c.get("xs", ())) > 1 and c.get("t") in ("Sum", "Product"):
            result.append((c, "drop"))
        for v in c.values():
            _sites(v, result)
    elif isinstance(c, list):
        for v in c:
            _sites(v, result)
    return result


def mutate(tree, k):
    """Returns a copy of the tree with one change and a text, that tells what has been changed"""
    tree = json.loads(json.dumps(tree))
    sites = _sites(tree, [])
    if not sites:
        return tree, "nothing"
    c, key = sites[k % len(sites)]
    j = k // len(sites)
    if key == "tr":
        c["tr"] = not c["tr"]
    elif key in ("v", "k"):
        c[key] = gen.enc(gen.dec(c[key]) + (1.0, -0.5, 1j)[j % 3])
    elif key in ("xs", "ys", "c"):
        i = j % len(c[key])
        if key == "xs":
            i = len(c[key]) - 1    # keeps the order
        c[key][i] = gen.enc(gen.dec(c[key][i]) + (1.0, 0.25)[j % 2])
    elif key in ("i", "e"):
        c[key] = INTERPOLATIONS[(INTERPOLATIONS.index(c[key]) + 1 + j % (len(INTERPOLATIONS) - 1)) % len(INTERPOLATIONS)]
    elif key == "n":
        c["xs"], c["ys"] = c["xs"][:-1], c["ys"][:-1]
    elif key == "swap":
        c["a"], c["b"] = c["b"], c["a"]
    elif key == "drop":
        c["xs"] = c["xs"][:-1]
    return tree, key


def _variant(t):
    op, a, k, tr = t
    b = a if k < 0 else mutate(a, k)[0]
    if op in ("Difference", "Quotient"):
        return {"t": op, "a": a, "b": b, "tr": tr}
    return {"t": op, "a": a, "b": b}


def _composites(children):
    return st.one_of(
        st.tuples(st.sampled_from(["Difference", "Quotient", "-", "/", "+", "*"]), children, st.integers(-2, 40), flag).map(_variant),
        st.fixed_dictionaries({"t": st.sampled_from(["Absolute", "Negative"]), "x": children, "tr": flag}),
        st.fixed_dictionaries({"t": st.sampled_from(["Sum", "Product"]), "xs": st.lists(children, min_size=0, max_size=4), "tr": flag}),
        st.fixed_dictionaries({"t": st.sampled_from(["Difference", "Quotient"]), "a": children, "b": children, "tr": flag}),
        st.fixed_dictionaries({"t": st.sampled_from(["+", "-", "*", "/"]), "a": children, "b": children}),
        st.fixed_dictionaries({"t": st.sampled_from(["abs", "neg", "inv", "flip"]), "x": children}),
        # an operand, that occurs twice, triggers the simplifications, that compare terms
        st.fixed_dictionaries({"t": st.sampled_from(["+", "-", "*", "/"]), "twice": children, "u": st.sampled_from(["", "neg", "inv", "flip", "abs"])}),
    )


def trees(leaves, max_leaves=6):
    return st.recursive(leaves, _composites, max_leaves=max_leaves)


plain_leaves = st.one_of(constant(), polynomial(), polynomial(), exponential())


# ---------------------------------------------------------------------------
# builder
# ---------------------------------------------------------------------------

def build(c):
    """Creates the term, that is described by the tree"""
    t = c["t"]
    if t == "Constant":
        return F.Constant(gen.dec(c["v"]))
    if t == "Polynomial":
        coeffs = [gen.dec(x) for x in c["c"]]
        return F.Polynomial({"list": list, "tuple": tuple, "array": numpy.array}[c["as"]](coeffs), transform=c["tr"])
    if t == "Exp":
        return F.Exp(gen.dec(c["k"]), transform=c["tr"])
    if t == "Bands":
        return F.Bands(xs=numpy.array(c["xs"], dtype=float), ys=numpy.array([gen.dec(y) for y in c["ys"]]), interpolation=c["i"], extrapolation=c["e"])
    if t in ("Absolute", "Negative"):
        return getattr(F, t)(build(c["x"]), transform=c["tr"])
    if t in ("Sum", "Product"):
        return getattr(F, t)(tuple(build(x) for x in c["xs"]), transform=c["tr"])
    if t in ("Difference", "Quotient"):
        return getattr(F, t)(build(c["a"]), build(c["b"]), transform=c["tr"])
    if t in ("+", "-", "*", "/"):
        if "twice" in c:
            a = build(c["twice"])
            b = _unary(c["u"], build(c["twice"]))
        else:
            a, b = build(c["a"]), build(c["b"])
        if t == "+":
            return a + b
        if t == "-":
            return a - b
        if t == "*":
            return a * b
        return a / b
    return _unary(t, build(c["x"]))


def _unary(t, x):
    if t == "abs":
        return abs(x)
    if t == "neg":
        return -x
    if t == "inv":
        return ~x
    if t == "flip":
        return x.invert_transform()
    return x


# ---------------------------------------------------------------------------
# evaluator
# ---------------------------------------------------------------------------

class Value:
    """values with bounds for their errors"""

    def __init__(self, v, e):
        self.v = v
        self.e = e

    def __neg__(self):
        return Value(-self.v, self.e)

    def __abs__(self):
        return Value(numpy.abs(self.v) + 0j, self.e + EPS * numpy.abs(self.v))

    def __add__(self, o):
        v = self.v + o.v
        return Value(v, self.e + o.e + EPS * numpy.abs(v))

    def __sub__(self, o):
        v = self.v - o.v
        return Value(v, self.e + o.e + EPS * numpy.abs(v))

    def __mul__(self, o):
        v = self.v * o.v
        return Value(v, numpy.abs(self.v) * o.e + numpy.abs(o.v) * self.e + self.e * o.e + 4 * EPS * numpy.abs(v))

    def __truediv__(self, o):
        with numpy.errstate(all="ignore"):
            v = self.v / o.v
            e = 2 * (self.e + numpy.abs(v) * o.e) / numpy.abs(o.v) + 8 * EPS * numpy.abs(v)
            bad = (o.e >= 0.5 * numpy.abs(o.v)) | (o.v == 0) | ~numpy.isfinite(v)
        return Value(numpy.where(bad, numpy.nan, v), numpy.where(bad, numpy.inf, e))


class Evaluation:
    """Evaluates trees for the given (non-zero) frequencies"""

    def __init__(self, frequencies):
        self.f = numpy.asarray(frequencies, dtype=float).reshape(-1)
        self.zero_division = False
        self.transformed = False

    def s(self, transform):
        s = 2j * math.pi * self.f
        if transform:
            self.transformed = True
            return 1.0 / s
        return s

    def constant(self, value):
        v = numpy.full(self.f.shape, complex(value))
        return Value(v, EPS * numpy.abs(v))

    def __call__(self, c, flip=False):
        with numpy.errstate(all="ignore"):
            r = self._eval(c, flip)
            bad = ~numpy.isfinite(r.v) | ~numpy.isfinite(r.e)
            if bad.any():
                r = Value(numpy.where(bad, numpy.nan, r.v), numpy.where(bad, numpy.inf, r.e))
            return r

    def divide(self, a, b):
        r = a / b
        if r.e.size and not numpy.isfinite(r.e).any():
            self.zero_division = True
        return r

    def _eval(self, c, flip):   # pylint: disable=too-many-return-statements,too-many-branches
        t = c["t"]
        if t == "Constant":
            return self.constant(gen.dec(c["v"]))
        if t == "Polynomial":
            s = self.s(flip != c["tr"])
            v = numpy.zeros(s.shape, dtype=complex)
            m = numpy.zeros(s.shape)
            n = len(c["c"])
            for i, x in enumerate(c["c"]):
                p = gen.dec(x) * s ** (n - 1 - i)
                v = v + p
                m = m + numpy.abs(p)
            return Value(v, m * EPS * 4 * (n + 1))
        if t == "Exp":
            s = self.s(flip != c["tr"])
            k = gen.dec(c["k"])
            v = numpy.exp(k * s)
            return Value(v, numpy.abs(v) * EPS * (8 + 4 * numpy.abs(k * s)))
        if t == "Bands":
            v, error, ok = interpolate(c, self.f)
            return Value(v, numpy.where(ok, error + 1e-11 * numpy.abs(v) + 1e-300, numpy.inf))
        if t in ("Absolute", "abs"):
            return abs(self(c["x"], flip != c.get("tr", False)))
        if t in ("Negative", "neg"):
            return -self(c["x"], flip != c.get("tr", False))
        if t == "Sum":
            r = self.constant(0.0)
            for x in c["xs"]:
                r = r + self(x, flip != c["tr"])
            return r
        if t == "Product":
            if not c["xs"]:
                return self.constant(0.0)
            r = self.constant(1.0)
            for x in c["xs"]:
                r = r * self(x, flip != c["tr"])
            return r
        if t == "Difference":
            return self(c["a"], flip != c["tr"]) - self(c["b"], flip != c["tr"])
        if t == "Quotient":
            return self.divide(self(c["a"], flip != c["tr"]), self(c["b"], flip != c["tr"]))
        if t in ("+", "-", "*", "/"):
            if "twice" in c:
                a = self(c["twice"], flip)
                u = c["u"]
                if u == "":
                    b = a
                else:
                    b = self({"t": u, "x": c["twice"]}, flip)
            else:
                a, b = self(c["a"], flip), self(c["b"], flip)
            if t == "+":
                return a + b
            if t == "-":
                return a - b
            if t == "*":
                return a * b
            return self.divide(a, b)
        if t == "inv":
            return self.divide(self.constant(1.0), self(c["x"], flip))
        if t == "flip":
            return self(c["x"], not flip)
        raise ValueError(t)


def has_transform(c):
    """Returns True, if any part of the tree is affected by a transform"""
    if isinstance(c, dict):
        return bool(c.get("tr")) or c.get("t") == "flip" or c.get("u") == "flip" or any(has_transform(v) for v in c.values())
    if isinstance(c, list):
        return any(has_transform(v) for v in c)
    return False


def kinds(c, result=None):
    """Returns the set of the types of the nodes in the tree"""
    result = set() if result is None else result
    if isinstance(c, dict):
        if "t" in c:
            result.add(c["t"])
        for v in c.values():
            kinds(v, result)
    elif isinstance(c, list):
        for v in c:
            kinds(v, result)
    return result


# ---------------------------------------------------------------------------
# interpolation model
# ---------------------------------------------------------------------------

def _line(x, x0, x1, y0, y1):
    return y0 + (y1 - y0) * ((x - x0) / (x1 - x0))


def _segment(mode, x, x0, x1, y0, y1):
    """The value of the curve through the two points"""
    if mode == LINEAR:
        return _line(x, x0, x1, y0, y1)
    if mode == LOG_X:
        return _line(numpy.log(x), numpy.log(x0), numpy.log(x1), y0, y1)
    if mode == LOG_Y:
        return numpy.exp(_line(x, x0, x1, numpy.log(y0), numpy.log(y1)))
    return numpy.exp(_line(numpy.log(x), numpy.log(x0), numpy.log(x1), numpy.log(y0), numpy.log(y1)))


def interpolate_one(x, xs, ys, i, e):
    """Models the value of a bands filter at one frequency. Returns (value, decidable)."""
    if not xs:
        return 0.0, True
    pairs = sorted(zip(xs, ys), key=lambda p: p[0])
    xs = [p[0] for p in pairs]
    ys = [p[1] for p in pairs]
    if any(isinstance(y, complex) for y in ys):
        ys = [complex(y) for y in ys]
    for a, b in zip(xs, ys):
        if a == x:
            return b, True
    outside = x < xs[0] or x > xs[-1]
    mode = e if outside else i
    if mode == ZERO:
        return 0.0, True
    if mode == ONE:
        return 1.0, True
    if mode == STAIRS_LIN or (mode == STAIRS_LOG and outside):
        d = sorted((abs(x - a), n) for n, a in enumerate(xs))
        tie = len(d) > 1 and d[1][0] - d[0][0] <= 1e-9 * (abs(x) + d[1][0])
        return ys[d[0][1]], not tie
    if mode == STAIRS_LOG:
        if xs[0] <= 0:
            return numpy.nan, False
        d = sorted((abs(math.log(x / a)), n) for n, a in enumerate(xs))
        tie = len(d) > 1 and d[1][0] - d[0][0] <= 1e-9
        return ys[d[0][1]], not tie
    if mode in (LOGARITHMIC, LOG_X) and (xs[0] <= 0 or x <= 0):
        return numpy.nan, False
    if mode in (LOGARITHMIC, LOG_Y) and any((not isinstance(y, complex) and y <= 0) or y == 0 for y in ys):
        return numpy.nan, False
    if len(xs) == 1:
        return ys[0], True
    # two neighbouring supporting points (the outermost two for extrapolation)
    n = 0
    while n < len(xs) - 2 and x > xs[n + 1]:
        n += 1
    with numpy.errstate(all="ignore"):
        v = _segment(mode, x, xs[n], xs[n + 1], numpy.complex128(ys[n]) if isinstance(ys[n], complex) else ys[n],
                     numpy.complex128(ys[n + 1]) if isinstance(ys[n + 1], complex) else ys[n + 1])
    return complex(v), bool(numpy.isfinite(v))


def interpolation_error(x, xs, ys, i, e):
    """A bound for the rounding errors of an interpolated value, which are large for steep slopes"""
    pairs = sorted(zip(xs, ys), key=lambda p: p[0])
    xs = [p[0] for p in pairs]
    ys = [p[1] for p in pairs]
    if len(xs) < 2 or x in xs:
        return 0.0
    mode = e if x < xs[0] or x > xs[-1] else i
    if mode not in (LINEAR, LOG_X, LOG_Y, LOGARITHMIC):
        return 0.0
    n = 0
    while n < len(xs) - 2 and x > xs[n + 1]:
        n += 1
    with numpy.errstate(all="ignore"):
        u, u0, u1 = (numpy.log(a) if mode in (LOGARITHMIC, LOG_X) else numpy.float64(a) for a in (x, xs[n], xs[n + 1]))
        w0, w1 = (numpy.log(complex(a)) if mode in (LOGARITHMIC, LOG_Y) else numpy.complex128(a) for a in (ys[n], ys[n + 1]))
        t = abs((u - u0) / (u1 - u0))
        dt = 4 * EPS * (t + (abs(u) + abs(u0) + t * (abs(u0) + abs(u1))) / abs(u1 - u0))
        error = abs(w1 - w0) * dt + 4 * EPS * (abs(w0) + (abs(w0) + abs(w1)) * (1 + t))
        if mode in (LOGARITHMIC, LOG_Y):
            error = numpy.exp((w0 + (w1 - w0) * ((u - u0) / (u1 - u0))).real) * numpy.expm1(min(error, 100.0))
    return float(error) if numpy.isfinite(error) else numpy.inf


def interpolate(c, f):
    """:returns: the values, their absolute errors and if they are unambiguous"""
    v = numpy.empty(len(f), dtype=complex)
    error = numpy.empty(len(f))
    ok = numpy.empty(len(f), dtype=bool)
    ys = [gen.dec(y) for y in c["ys"]]
    for n, x in enumerate(f):
        v[n], ok[n] = interpolate_one(float(x), c["xs"], ys, c["i"], c["e"])
        error[n] = interpolation_error(float(x), c["xs"], ys, c["i"], c["e"]) if ok[n] else 0.0
    return v, error, ok


# ---------------------------------------------------------------------------
# filters
# ---------------------------------------------------------------------------

@st.composite
def filters(draw, channels=(1, 3), leaves=plain_leaves, max_leaves=5):
    n = draw(st.integers(*channels))
    return {"t": "Filter", "c": draw(st.lists(trees(leaves, max_leaves), min_size=n, max_size=n)), "l": draw(gen.labels(n))}


def make(case):
    labels = case.get("l")
    tfs = tuple(build(c) for c in case["c"])
    if labels is None:
        return sumpf.Filter(transfer_functions=tfs)
    return sumpf.Filter(transfer_functions=tfs, labels=tuple(labels) if len(labels) % 2 else list(labels))


def full_labels(case):
    n = len(case["c"])
    given = list(case.get("l") or [])[:n]
    return tuple(given + [""] * (n - len(given)))


def compare(actual, value, what):
    """Compares the samples to the evaluated model at all frequencies, where the model is well-conditioned.

    :returns: the number of compared values
    """
    from .core import Violation
    a = numpy.asarray(actual)
    if a.shape != value.v.shape:
        raise Violation(f"{what}: shape {a.shape} instead of {value.v.shape}")
    decidable = numpy.isfinite(value.e) & (value.e <= 1e-5 * numpy.abs(value.v) + 1e-9)
    with numpy.errstate(all="ignore"):
        bad = decidable & ~(numpy.abs(a - value.v) <= 50 * value.e + 1e-280)
    if bad.any():
        i = int(numpy.argwhere(bad)[0][0])
        raise Violation(f"{what}: value {i} is {a[i]!r} instead of {value.v[i]!r} (error bound {value.e[i]:.2g})")
    return int(decidable.sum())
