"""Shifting, padding, reversing and sign operations move samples exactly"""

from hypothesis import strategies as st
import numpy
import sumpf
from vlib import defaults, gen, large
from vlib.core import Sub, equal, require, same_array
from vlib.gen import check_meta

CLASSES = {"Signal": sumpf.Signal, "Spectrum": sumpf.Spectrum, "Spectrogram": sumpf.Spectrogram}


def timed(lengths=(1, 14)):
    far = gen.far_offsets
    lengths = gen.sizes(*lengths)
    return st.one_of(gen.signals(channels=gen.sizes(1, 4, big=(5, 9)), lengths=lengths, offset=far), gen.signals(channels=(1, 4), lengths=lengths, offset=far),
                     gen.spectrograms(channels=(1, 3), bins=gen.sizes(1, 4, big=(33, 100)), lengths=gen.sizes(1, 9, big=(40, 101)), offset=far))


def meta(result, case, what, offset, shape):
    check_meta(result, what, cls=CLASSES[case["t"]], sr=case.get("sr"), res=case.get("r"),
               offset=offset if case["t"] != "Spectrum" else None, labels=gen.full_labels(case), shape=shape)


@st.composite
def shift_case(draw):
    a = draw(timed())
    n = a["a"]["shape"][-1]
    mode = draw(st.sampled_from(["OFFSET", "CROP", "PAD", "CYCLE"]))
    limit = n if mode == "CYCLE" else n + 6
    shift = draw(st.one_of(st.integers(-limit, limit), st.sampled_from([0, 1, -1, n, -n])))
    if mode == "OFFSET" and draw(st.integers(0, 3)) == 0:
        shift = None
    return {"a": a, "mode": mode, "shift": shift, "default": draw(st.booleans())}


def check_shift(case, ctx):
    a = gen.make(case["a"])
    data = numpy.array(gen.make_array(case["a"]["a"]))
    n = data.shape[-1]
    snapshot = gen.Snapshot(a)
    mode, d = case["mode"], case["shift"]
    flag = getattr(type(a).shift_modes, mode)
    result = a.shift(d) if mode == "OFFSET" and case["default"] else a.shift(d, flag)
    o = case["a"]["o"]
    what = f"{case['a']['t']}.shift({d}, {mode})"
    ctx.nontrivial_if(d not in (0, None))
    ctx.label(mode, case["a"]["t"])
    offset = o
    if mode == "OFFSET":
        expected = data
        offset = 0 if d is None else o + d
    else:
        length = n + abs(d) if mode == "PAD" else n
        expected = numpy.zeros(data.shape[:-1] + (length,), dtype=data.dtype)
        for i in range(n):
            if mode == "CYCLE":
                expected[..., (i + d) % n] = data[..., i]
            elif mode == "CROP":
                if 0 <= i + d < n:
                    expected[..., i + d] = data[..., i]
            else:
                expected[..., i + max(d, 0)] = data[..., i]
    meta(result, case["a"], what, offset, expected.shape)
    same_array(result.channels(), expected, what)
    snapshot.check(what)
    # going back
    if mode in ("OFFSET", "CYCLE") and d is not None:
        require(result.shift(-d, flag) == a, f"{what} and back")
    if mode == "PAD" and d < 0:
        require(result.pad(n) == a, f"{what} and cropping the padding")


@st.composite
def cycle_steps(draw):
    a = draw(timed((1, 12)))
    n = a["a"]["shape"][-1]
    return {"a": a, "steps": draw(st.lists(st.integers(-n, n), min_size=1, max_size=6)), "mode": draw(st.sampled_from(["CYCLE", "OFFSET"]))}


def check_steps(case, ctx):
    """successive shifts accumulate"""
    a = gen.make(case["a"])
    n = a.length()
    flag = getattr(type(a).shift_modes, case["mode"])
    b = a
    for s in case["steps"]:
        b = b.shift(s, flag)
    total = sum(case["steps"])
    ctx.nontrivial_if(len(case["steps"]) > 1)
    if case["mode"] == "CYCLE":
        same_array(b.channels(), numpy.array([numpy.roll(c, total, axis=-1) for c in a.channels()]), "sequence of cyclic shifts")
        equal(b.offset(), a.offset(), "offset after cyclic shifts")
        require(b == a.shift(total % n, flag), "a sequence of cyclic shifts differs from one shift")
    else:
        require(b == a.shift(total, flag), "a sequence of shifts differs from one shift")


@st.composite
def pad_case(draw):
    a = draw(st.one_of(timed((0, 14)), gen.spectrums(channels=(1, 4), lengths=(0, 14))))
    n = a["a"]["shape"][-1]
    complex_ok = a["t"] != "Signal"
    value = draw(st.one_of(st.none(), gen.small_float, gen.complex_number if complex_ok else gen.small_float))
    return {"a": a, "length": draw(st.one_of(st.integers(0, 2 * n + 5), st.sampled_from([n, n + 1, max(n - 1, 0)]))), "value": value}


def check_pad(case, ctx):
    a = gen.make(case["a"])
    data = numpy.array(gen.make_array(case["a"]["a"]))
    n = data.shape[-1]
    length = case["length"]
    snapshot = gen.Snapshot(a)
    value = 0.0 if case["value"] is None else gen.dec(case["value"])
    result = a.pad(length) if case["value"] is None else a.pad(length, value)
    what = f"{case['a']['t']}.pad({length}, {value})"
    ctx.nontrivial_if(length != n)
    ctx.label(case["a"]["t"], "crop" if length < n else "append" if length > n else "same")
    dtype = numpy.float64 if case["a"]["t"] == "Signal" else numpy.complex128
    expected = numpy.full(data.shape[:-1] + (length,), value, dtype=dtype)
    m = min(n, length)
    expected[..., :m] = data[..., :m]
    meta(result, case["a"], what, case["a"].get("o"), expected.shape)
    same_array(result.channels(), expected, what)
    snapshot.check(what)
    # padding and cropping again restores the original
    if length >= n:
        require(result.pad(n) == a, f"{what} and cropping again")


@st.composite
def unary_case(draw):
    a = draw(st.one_of(gen.signals(channels=(1, 4), lengths=(1, 14)), gen.signals(channels=(1, 4), lengths=(1, 14)),
                       gen.spectrograms(channels=(1, 3), bins=(1, 4), lengths=(1, 6)), gen.spectrums(channels=(1, 4), lengths=(1, 12))))
    op = draw(st.sampled_from(["abs", "neg", "reversed"] if a["t"] == "Signal" else ["abs", "neg", "conjugate"]))
    return {"a": a, "op": op}


def check_unary(case, ctx):
    a = gen.make(case["a"])
    data = numpy.array(gen.make_array(case["a"]["a"]))
    snapshot = gen.Snapshot(a)
    op = case["op"]
    what = f"{op} of a {case['a']['t']}"
    offset = case["a"].get("o")
    ctx.nontrivial_if(data.size > 1)
    ctx.label(f"{case['a']['t']}:{op}")
    if op == "abs":
        result = abs(a)
        expected = numpy.where(data < 0, -data, data) if case["a"]["t"] == "Signal" else numpy.hypot(data.real, data.imag)
    elif op == "neg":
        result = -a
        expected = 0 - data
        require(-result == a, "the negative of the negative")
    elif op == "conjugate":
        result = a.conjugate()
        expected = data.real - 1j * data.imag
        require(result.conjugate() == a, "the conjugate of the conjugate")
    else:
        result = reversed(a)
        n = data.shape[-1]
        expected = numpy.empty_like(data)
        for i in range(n):
            expected[:, i] = data[:, n - 1 - i]
        offset = n - 1 - offset
        require(reversed(result) == a, "reversing twice")
    meta(result, case["a"], what, offset, data.shape)
    if op == "abs" and case["a"]["t"] != "Signal":
        from vlib.core import close
        close(result.channels(), expected, what, rtol=1e-13)
    else:
        same_array(result.channels(), expected, what)
    snapshot.check(what)


SUBS = [
    Sub("shift", shift_case(), check_shift, quick=9000, rule="shifts by a distance other than zero"),
    Sub("steps", cycle_steps(), check_steps, quick=2000, rule="more than one successive shift"),
    Sub("pad", pad_case(), check_pad, quick=6000, rule="the target length differs from the length"),
    Sub("unary", unary_case(), check_unary, quick=6000, rule="more than one sample"),
    defaults.sub("P05", 400),
    large.sub("P05"),
]
ASSUMPTIONS = ["cyclic shifts by at most the signal's length", "real pad values for signals"]
