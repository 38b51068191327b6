"""Naive models for the arithmetic with sampled data (every value is computed on its own)"""

import operator
import numpy
import sumpf

# name: (python operator, numpy function, what to do with data, that only the right operand has, label)
OPS = {
    "+": (operator.add, numpy.add, lambda x: x, "Sum"),
    "-": (operator.sub, numpy.subtract, lambda x: -x, "Difference"),
    "*": (operator.mul, numpy.multiply, lambda x: x, "Product"),
    "/": (operator.truediv, numpy.true_divide, lambda x: numpy.divide(1.0, x), "Quotient"),
    "%": (operator.mod, numpy.mod, lambda x: x, "Modulo"),
    "**": (operator.pow, numpy.power, lambda x: x, "Power"),
}


class M:
    """A model of a signal, a spectrum or a spectrogram: one value per (channel, [frequency], time)"""

    def __init__(self, kind, data, offset=0, sr=None, res=None, labels=()):
        self.kind = kind
        self.data = data
        self.offset = offset
        self.sr = sr
        self.res = res
        self.labels = tuple(labels)

    @staticmethod
    def of(case):
        from .gen import make_array, full_labels
        data = numpy.array(make_array(case["a"]))
        return M(case["t"], data, case.get("o", 0), case.get("sr"), case.get("r"), full_labels(case))

    def at(self, c, f, t):
        """returns the value at the given position or None"""
        d = self.data
        if len(d) == 1:
            c = 0
        if c >= len(d):
            return None
        if self.kind == "Signal":
            t -= self.offset
            return d[c, t] if 0 <= t < d.shape[1] else None
        if self.kind == "Spectrum":
            return d[c, f] if 0 <= f < d.shape[1] else None
        t -= self.offset
        return d[c, f, t] if 0 <= t < d.shape[2] and f < d.shape[1] else None

    def span(self):
        return (self.offset, self.offset + self.data.shape[-1])


def binary(left, right, op):
    """the model of an operation between two data objects"""
    _, fn, only_right, label = OPS[op]
    kinds = {left.kind, right.kind}
    channels = max(len(left.data), len(right.data))
    if kinds == {"Signal"}:
        kind = "Signal"
    elif kinds == {"Spectrum"}:
        kind = "Spectrum"
    else:
        kind = "Spectrogram"
    timed = [x for x in (left, right) if x.kind != "Spectrum"]
    if timed:
        start = min(x.offset for x in timed)
        stop = max(x.span()[1] for x in timed)
    else:
        start, stop = 0, 1
    if kind == "Signal":
        frequencies = 1
    else:
        frequencies = max(x.data.shape[1] for x in (left, right) if x.kind != "Signal")
    out = numpy.zeros((channels, frequencies, stop - start), dtype=float if kind == "Signal" else complex)
    with numpy.errstate(all="ignore"):
        for c in range(channels):
            for f in range(frequencies):
                for t in range(start, stop):
                    a, b = left.at(c, f, t), right.at(c, f, t)
                    if a is not None and b is not None:
                        v = fn(a, b)
                    elif a is not None:
                        v = a
                    elif b is not None:
                        v = only_right(b)
                    else:
                        v = 0.0
                    out[c, f, t - start] = v
    if kind == "Signal":
        out = out[:, 0, :]
    elif kind == "Spectrum":
        out = out[:, :, 0]
    base = left if left.kind == kind else right
    return M(kind, out, start if kind != "Spectrum" else 0, base.sr, base.res, (label,) * channels)


def with_array(left, array, op, swapped):
    """the model of an operation between a data object and an array or number"""
    _, fn, _, _ = OPS[op]
    with numpy.errstate(all="ignore"):
        d = fn(array, left.data) if swapped else fn(left.data, array)
    return M(left.kind, d, left.offset, left.sr, left.res, left.labels)


def compare(result, model, what, exact=False):
    from .core import close, same_array
    from .gen import check_meta
    cls = {"Signal": sumpf.Signal, "Spectrum": sumpf.Spectrum, "Spectrogram": sumpf.Spectrogram}[model.kind]
    check_meta(result, what, cls=cls, sr=model.sr, res=model.res,
               offset=model.offset if model.kind != "Spectrum" else None, labels=model.labels)
    if exact:
        same_array(result.channels(), model.data, what)
    else:
        with numpy.errstate(all="ignore"):
            close(result.channels(), model.data, what, rtol=1e-9)


def operand(case):
    """builds a number or an array-like from its description"""
    from .gen import make_array, dec
    k = case["k"]
    if k == "int":
        return int(case["v"])
    if k == "float":
        return float(case["v"])
    if k == "complex":
        return dec(case["v"])
    if k == "npint":
        return numpy.int64(case["v"])
    if k == "npfloat":
        return numpy.float64(case["v"])
    if k == "npcomplex":
        return numpy.complex128(dec(case["v"]))
    a = make_array(case["v"])
    if k == "array0":
        return a.reshape(())
    if k == "list":
        return a.tolist()
    if k == "tuple":
        def tup(x):
            return tuple(tup(y) for y in x) if isinstance(x, list) else x
        return tup(a.tolist())
    return a


def integer_power(op, *operands):
    """True, if the result is not defined for negative exponents, because NumPy does not allow these for integers"""
    return op == "**" and all((x.channels() if hasattr(x, "channels") else numpy.asarray(x)).dtype.kind in "iu" for x in operands)
