"""Saved spectrums and spectrograms load back unchanged"""

import csv
import os
import numpy
import sumpf
from hypothesis import strategies as st
from vlib import files, gen
from vlib.core import Sub, equal, nearly, require, same_array

FORMATS = {"Spectrum": ("TEXT_JSON", "NUMPY_NPZ", "PYTHON_PICKLE", "TEXT_CSV", "NUMPY_NPY"),
           "Spectrogram": ("TEXT_JSON", "NUMPY_NPZ", "PYTHON_PICKLE")}
EXTENSIONS = {"TEXT_JSON": [".json", ".js"], "NUMPY_NPZ": [".npz"], "PYTHON_PICKLE": [".pickle"], "TEXT_CSV": [".csv"], "NUMPY_NPY": [".npy"]}
AUTO = {e: f for f, es in EXTENSIONS.items() for e in es}
TABLES = ("TEXT_CSV", "NUMPY_NPY")
CLASSES = {"Spectrum": sumpf.Spectrum, "Spectrogram": sumpf.Spectrogram}
DTYPES = ("c16", "c16", "c16", "f8", "c8", "f4", "i8")


@st.composite
def objects(draw, cls, fmt):
    c = draw(st.sampled_from([1, 1, 2, 3, 5]))
    n = draw(st.one_of(st.integers(1, 4), gen.sizes(1, 40, rare=10)))
    shape = [c, n] if cls == "Spectrum" else [c, draw(gen.sizes(1, 6, big=(33, 129))), n if n < 12 else 1 + n % 50]
    if fmt not in TABLES and draw(st.integers(0, 11)) == 0:
        shape[-1] = 0
        if fmt == "TEXT_JSON":      # an empty data set is stored as the default one
            shape = [1] * (len(shape) - 1) + [0]
    return {"t": cls, "shape": shape, "seed": draw(gen.seed), "dt": draw(st.sampled_from(DTYPES)), "kind": draw(st.sampled_from(["normal", "normal", "wide", "special", "int"])),
            "r": draw(gen.resolution), "sr": draw(gen.sampling_rate), "o": draw(gen.far_offsets), "l": draw(gen.labels(c)),
            "layout": draw(st.sampled_from(["C", "C", "F", "strided", "reversed"]))}


def make(case):
    rng = numpy.random.Generator(numpy.random.PCG64(case["seed"]))
    shape = tuple(case["shape"])
    dt = numpy.dtype(case["dt"])

    def part():
        if case["kind"] == "int" or dt.kind == "i":
            return rng.integers(-5, 6, shape).astype(float)
        x = rng.normal(size=shape)
        if case["kind"] == "wide":
            x *= 10.0 ** rng.uniform(-30.0, 30.0, shape)
        elif case["kind"] == "special":
            x[rng.uniform(size=shape) < 0.2] = 0.0
            x[rng.uniform(size=shape) < 0.1] = -0.0
            x[rng.uniform(size=shape) < 0.1] = numpy.inf
            x[rng.uniform(size=shape) < 0.1] = -numpy.inf
            x[rng.uniform(size=shape) < 0.1] = numpy.nan
        return x
    x = numpy.empty(shape, dtype=dt)
    if dt.kind == "c":
        x.real = part()
        x.imag = part()
    else:
        x[...] = part()
    if case["layout"] == "F":
        x = numpy.asfortranarray(x)
    elif case["layout"] == "strided":
        y = numpy.full(tuple(2 * s for s in shape), 7, dtype=dt)[tuple(slice(None, None, 2) for _ in shape)]
        y[...] = x
        x = y
    elif case["layout"] == "reversed":
        x = numpy.array(x[..., ::-1])[..., ::-1]
    if case["t"] == "Spectrum":
        return sumpf.Spectrum(channels=x, resolution=case["r"], labels=case["l"]), x
    return sumpf.Spectrogram(channels=x, resolution=case["r"], sampling_rate=case["sr"], offset=case["o"], labels=case["l"]), x


def parts(a, b, what):
    equal(tuple(a.shape), tuple(b.shape), f"{what}: shape of the channels")
    same_array(numpy.real(a), numpy.real(b), f"{what}: real part")
    same_array(numpy.imag(a), numpy.imag(b), f"{what}: imaginary part")


def compare(loaded, case, data, fmt, filename, what):
    c = data.shape[0]
    labels = gen.full_labels({"a": {"shape": [c]}, "l": case["l"]})
    equal(tuple(loaded.shape()), tuple(data.shape), f"{what}: shape")
    x = loaded.channels()
    if fmt == "TEXT_CSV" and case["dt"] in ("c8", "f4"):
        x = x.astype(numpy.complex64)
    parts(x, data, what)
    if fmt in TABLES:
        if data.shape[1] > 1:
            nearly(loaded.resolution(), case["r"], f"{what}: resolution", rtol=1e-12)
        labels = labels if fmt == "TEXT_CSV" else tuple(f"{filename} {i}" for i in range(1, c + 1))
    else:
        equal(loaded.resolution(), case["r"], f"{what}: resolution")
    equal(tuple(loaded.labels()), labels, f"{what}: labels")
    if case["t"] == "Spectrogram":
        equal(loaded.sampling_rate(), case["sr"], f"{what}: sampling rate")
        equal(loaded.offset(), case["o"], f"{what}: offset")
    hash(loaded)
    repr(loaded)
    if not numpy.isnan(data).any():
        require(loaded == loaded, f"{what}: the loaded object does not equal itself")       # pylint: disable=comparison-with-itself


@st.composite
def roundtrips(draw):
    cls = draw(st.sampled_from(["Spectrum", "Spectrogram"]))
    fmt = draw(st.sampled_from(FORMATS[cls]))
    return {"f": fmt, "s": draw(objects(cls, fmt)), "name": draw(files.names), "ext": draw(st.sampled_from(EXTENSIONS[fmt])), "path": draw(st.booleans())}


def check_roundtrip(case, ctx):
    fmt = case["f"]
    cls = CLASSES[case["s"]["t"]]
    s, data = make(case["s"])
    snapshot = gen.Snapshot(s)
    filename = case["name"] + case["ext"]
    path = ctx.tmp(filename)
    ctx.label(case["s"]["t"] + " " + fmt, case["s"]["kind"], case["s"]["dt"])
    ctx.nontrivial_if(data.size > 2)
    files.save(s, path, getattr(cls.file_formats, fmt), case["path"])
    snapshot.check(f"saving as {fmt}")
    loaded = files.load(cls, path, case["path"])
    compare(loaded, case["s"], data, fmt, filename, fmt)
    if fmt not in TABLES and not numpy.isnan(data).any():
        require(loaded == s, f"{fmt}: the loaded object does not equal the original")
    # the loaded object can be used like any other
    if not numpy.isfinite(data).all():
        return
    x = loaded.channels()
    for description, result, expected in (("sum", loaded + loaded, x + x), ("scaled", 2.5 * loaded, 2.5 * x), ("conjugate", loaded.conjugate(), numpy.conjugate(x)), ("slice", loaded[0], x[0:1])):
        parts(result.channels(), expected, f"{fmt}: {description}")
    files.save(loaded, path, getattr(cls.file_formats, fmt))
    again = files.load(cls, path)
    parts(again.channels(), loaded.channels(), f"{fmt}: after saving what has been loaded")
    equal(again.labels(), loaded.labels(), f"{fmt}: labels after saving what has been loaded")


@st.composite
def histories(draw):
    steps = []
    cls = draw(st.sampled_from(["Spectrum", "Spectrogram"]))
    for _ in range(draw(st.integers(2, 6))):
        automatic = draw(st.integers(0, 2)) > 0
        fmt = draw(st.sampled_from(FORMATS[cls]))
        ext = draw(st.sampled_from(EXTENSIONS[fmt]))
        steps.append({"auto": automatic, "f": fmt, "s": draw(objects(cls, fmt)), "file": draw(st.sampled_from(["a", "b"])) + ext})
    return {"cls": cls, "steps": steps}


def check_history(case, ctx):
    current = {}
    cls = CLASSES[case["cls"]]
    for i, step in enumerate(case["steps"]):
        s, data = make(step["s"])
        path = ctx.tmp(step["file"])
        what = f"step {i}: {'AUTO' if step['auto'] else step['f']} {step['file']!r}"
        if step["file"] in current:
            ctx.label("overwritten")
            ctx.nontrivial_if(True)
        files.save(s, path, cls.file_formats.AUTO if step["auto"] and i % 2 else (None if step["auto"] else getattr(cls.file_formats, step["f"])))
        extension = os.path.splitext(step["file"])[1]
        require(files.content(path).startswith(files.MAGIC.get(extension, b"frequency")), f"{what}: the content of the file does not fit to its extension")
        current[step["file"]] = (step, data, what)
        for name, (saved, expected, description) in current.items():
            compare(files.load(cls, ctx.tmp(name)), saved["s"], expected, saved["f"], name, description)
    equal(sorted(os.listdir(os.path.dirname(ctx.tmp("x")))), sorted(current), "the files, that have been created")


@st.composite
def tables(draw):
    n = draw(st.integers(2, 12))
    c = draw(st.integers(1, 3))
    return {"n": n, "c": c, "seed": draw(gen.seed), "order": draw(st.permutations(list(range(n)))), "r": draw(gen.resolution), "first": draw(st.sampled_from([0, 0, 1, 2, 5])),
            "kind": draw(st.sampled_from(["csv", "csv", "npy"])), "header": draw(st.booleans()), "l": draw(gen.labels(c)), "titles": draw(st.sampled_from([0, 0, 0, -1, -2, 1, 2]))}


def check_table(case, ctx):
    """Rows are sorted by frequency and missing rows at the low end are filled with zeros"""
    rng = numpy.random.Generator(numpy.random.PCG64(case["seed"]))
    n, c, first = case["n"], case["c"], case["first"]
    data = rng.normal(size=(c, n)) + 1j * rng.normal(size=(c, n))
    frequencies = (numpy.arange(n) + first) * case["r"]
    ctx.nontrivial_if(case["order"] != sorted(case["order"]) or first)
    ctx.label(case["kind"], "shifted" if first else "from 0 Hz")
    shuffled = numpy.concatenate([[frequencies], data])[:, case["order"]]
    filename = "table." + case["kind"]
    path = ctx.tmp(filename)
    labels = gen.full_labels({"a": {"shape": [c]}, "l": case["l"]})
    if case["kind"] == "csv":
        with open(path, "w", newline="") as f:
            if case["header"]:
                # columns without a title have an empty label and titles without a column are ignored
                titles = (list(labels) + ["x", "y"])[0:max(0, c + case.get("titles", 0))]
                labels = tuple((titles + [""] * c)[0:c])
                csv.writer(f).writerow(["f [Hz]"] + titles)
            else:
                labels = tuple(f"{filename} {i}" for i in range(1, c + 1))
            for row in shuffled.T:
                f.write(",".join([repr(float(row[0].real))] + [str(complex(v)) for v in row[1:]]) + "\n")
    else:
        numpy.save(path, shuffled)
        labels = tuple(f"{filename} {i}" for i in range(1, c + 1))
    loaded = files.load(sumpf.Spectrum, path)
    expected = numpy.concatenate([numpy.zeros((c, first)), data], axis=1)
    parts(loaded.channels(), expected, "table")
    nearly(loaded.resolution(), case["r"], "resolution of a table", rtol=1e-10)
    equal(tuple(loaded.labels()), labels, "labels of a table")


SUBS = [Sub("roundtrip", roundtrips(), check_roundtrip, 4000, rule="a file with at least three values is written and read"),
        Sub("history", histories(), check_history, 1000, rule="a file is overwritten"),
        Sub("table", tables(), check_table, 1000, rule="the rows of the table are not in the order of their frequencies or do not start with 0 Hz")]
