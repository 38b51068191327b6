"""Saved signals load back unchanged up to the format's resolution"""

import os
import numpy
import sumpf
from hypothesis import strategies as st
from vlib import files, gen, large
from vlib.core import Sub, close, equal, fail, nearly, require, same_array

FORMATS = sumpf.Signal.file_formats
EXACT = ("TEXT_JSON", "NUMPY_NPZ", "PYTHON_PICKLE")
TABLES = ("TEXT_CSV", "NUMPY_NPY")
STANDARD = {"WAV_INT32": 32, "WAV_INT16": 16, "WAV_UINT8": 8, "AIFF_INT32": 32, "AIFF_INT16": 16, "AIFF_INT8": 8}
INTEGER = {"WAV_INT24": 24, "AIFF_INT24": 24, "AIFF_UINT8": 8, "FLAC_INT8": 8, "FLAC_INT16": 16, "FLAC_INT24": 24}
FLOAT = {"WAV_FLOAT32": numpy.float32, "AIFF_FLOAT32": numpy.float32, "WAV_FLOAT64": numpy.float64, "AIFF_FLOAT64": numpy.float64}
COMPANDED = ("WAV_ULAW", "WAV_ALAW", "AIFF_ULAW", "AIFF_ALAW")
# libsndfile reads the padding byte after an odd number of samples in an AIFF file as another sample (see known_findings.json)
PADDED = ("AIFF_UINT8", "AIFF_ULAW", "AIFF_ALAW")
AUDIO = tuple(STANDARD) + tuple(INTEGER) + tuple(FLOAT) + COMPANDED + ("OGG_VORBIS",)
ALL = EXACT + TABLES + AUDIO
# the preferred formats for the file extensions
AUTO = {".csv": "TEXT_CSV", ".json": "TEXT_JSON", ".js": "TEXT_JSON", ".npz": "NUMPY_NPZ", ".npy": "NUMPY_NPY", ".pickle": "PYTHON_PICKLE",
        ".wav": "WAV_FLOAT32", ".aiff": "AIFF_FLOAT32", ".aif": "AIFF_FLOAT32", ".aifc": "AIFF_FLOAT32", ".flac": "FLAC_INT24", ".ogg": "OGG_VORBIS", ".oga": "OGG_VORBIS"}


def extensions(fmt):
    """The extensions, that are commonly used for files of the given format"""
    family = fmt.split("_", maxsplit=1)[0]
    return {"TEXT": {"TEXT_CSV": [".csv"], "TEXT_JSON": [".json", ".js"]}.get(fmt, []), "NUMPY": [".npz"] if fmt == "NUMPY_NPZ" else [".npy"],
            "PYTHON": [".pickle"], "WAV": [".wav"], "AIFF": [".aiff", ".aif", ".aifc"], "FLAC": [".flac"], "OGG": [".ogg", ".oga"]}[family]


@st.composite
def signal_cases(draw, fmt):
    c = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 7]))
    n = draw(st.one_of(st.integers(1, 5), st.integers(1, 60), st.sampled_from([2047, 2048, 2049, 4096, 4097, 5000])))
    if fmt in EXACT and draw(st.integers(0, 9)) == 0:
        n = 0
    if fmt in ("TEXT_JSON", "TEXT_CSV") and n > 60:
        n = 61
    if fmt in PADDED and c == 1 and n % 2:
        n += 1      # see known_findings.json
    value = draw(st.sampled_from(["unit", "unit", "fullscale", "tiny", "over", "normal"]))
    case = {"c": c, "n": n, "v": value, "seed": draw(gen.seed), "sr": draw(gen.sampling_rate if fmt in EXACT + TABLES else gen.audio_rate), "o": draw(gen.far_offsets if fmt in EXACT else gen.offsets), "l": draw(gen.labels(c)),
            "dt": draw(st.sampled_from(["f8", "f8", "f8", "f4", "i4"])), "layout": draw(st.sampled_from(gen.LAYOUTS))}
    return case


def make(case):
    rng = numpy.random.Generator(numpy.random.PCG64(case["seed"]))
    shape = (case["c"], case["n"])
    if case["dt"] == "i4":
        x = rng.integers(-1, 2, shape).astype(numpy.int32)
    else:
        x = rng.uniform(-1.0, 1.0, shape)
        if case["v"] == "fullscale":
            x = numpy.sign(x)
            x[rng.uniform(size=shape) < 0.2] = 0.0
        elif case["v"] == "tiny":
            x *= 1e-5
        elif case["v"] == "over":
            x *= 1.7
        elif case["v"] == "normal":
            x = rng.normal(size=shape) * 1e6
        x = x.astype(case["dt"])
    if case["layout"] == "F":
        x = numpy.asfortranarray(x)
    elif case["layout"] == "strided":
        y = numpy.full((2 * shape[0], 2 * shape[1]), 7, dtype=x.dtype)[::2, ::2]
        y[...] = x
        x = y
    elif case["layout"] == "reversed":
        x = numpy.array(x[:, ::-1])[:, ::-1]
    label = case["l"]
    return sumpf.Signal(channels=x, sampling_rate=case["sr"], offset=case["o"], labels=label), numpy.array(x, dtype=numpy.float64)


def audio_sampling_rate(fmt, sampling_rate):
    """The nearest sampling rate, that can be stored in the file"""
    if fmt == "OGG_VORBIS":
        return max(1000, min(round(sampling_rate), 200000))
    if fmt.startswith("FLAC") and sampling_rate >= 65535.5:
        return min(round(sampling_rate / 10.0) * 10, 655350)
    return max(1, round(sampling_rate))


def compare(loaded, case, data, fmt, filename, what):
    """compares a loaded signal to the data, that has been saved"""
    c, n = data.shape
    labels = gen.full_labels({"a": {"shape": [c]}, "l": case["l"]})
    numbered = tuple(f"{filename} {i}" for i in range(1, c + 1))
    equal(loaded.shape(), (c, n), f"{what}: shape")
    equal(loaded.channels().shape, (c, n), f"{what}: shape of the channels")
    x = loaded.channels()
    if fmt in EXACT:
        same_array(x, data, f"{what}: samples")
        equal(loaded.sampling_rate(), case["sr"], f"{what}: sampling rate")
        equal(loaded.offset(), case["o"], f"{what}: offset")
        equal(tuple(loaded.labels()), labels, f"{what}: labels")
    elif fmt in TABLES:
        if fmt == "TEXT_CSV" and case["dt"] == "f4":    # the shortest decimal representation, which identifies the single precision number
            x = x.astype(numpy.float32)
        same_array(x, data, f"{what}: samples")
        if n > 1:   # otherwise the sampling rate cannot be derived from the time axis
            nearly(loaded.sampling_rate(), case["sr"], f"{what}: sampling rate", rtol=1e-13 * (n + 2 * abs(case["o"]) + 2))
            equal(loaded.offset(), case["o"], f"{what}: offset")
        equal(tuple(loaded.labels()), labels if fmt == "TEXT_CSV" else numbered, f"{what}: labels")
    else:
        equal(loaded.sampling_rate(), audio_sampling_rate(fmt, case["sr"]), f"{what}: sampling rate")
        equal(loaded.offset(), 0, f"{what}: offset")
        equal(tuple(loaded.labels()), numbered, f"{what}: labels")
        if fmt in FLOAT:
            same_array(x, data.astype(FLOAT[fmt]).astype(numpy.float64), f"{what}: samples")
        elif fmt in STANDARD:
            step = 2.0 ** (1 - STANDARD[fmt])
            close(x, numpy.clip(data, -1.0, 1.0 - step), f"{what}: samples", rtol=0.0, atol=0.5001 * step)
        elif fmt in INTEGER:
            step = 2.0 ** (1 - INTEGER[fmt])
            close(x, numpy.clip(data, -1.0, 1.0 - step), f"{what}: samples", rtol=0.0, atol=2.0 * step)
        elif fmt in COMPANDED:
            close(x, numpy.clip(data, -1.0, 1.0), f"{what}: samples", rtol=0.04, atol=0.002)
    files.usable(loaded, what)


# ---------------------------------------------------------------------------
# one file
# ---------------------------------------------------------------------------


@st.composite
def roundtrips(draw):
    fmt = draw(st.sampled_from(ALL + EXACT + TABLES + tuple(STANDARD)))
    return {"f": fmt, "s": draw(signal_cases(fmt)), "name": draw(files.names), "ext": draw(st.sampled_from(extensions(fmt))), "path": draw(st.booleans())}


def check_roundtrip(case, ctx):
    fmt = case["f"]
    s, data = make(case["s"])
    snapshot = gen.Snapshot(s)
    filename = case["name"] + case["ext"]
    path = ctx.tmp(filename)
    ctx.label(fmt, case["s"]["v"], case["s"]["dt"], "long" if data.shape[1] > 2000 else "short")
    ctx.nontrivial_if(data.size > 2)
    files.save(s, path, getattr(FORMATS, fmt), case["path"])
    snapshot.check(f"saving as {fmt}")
    loaded = files.load(sumpf.Signal, path, case["path"])
    compare(loaded, case["s"], data, fmt, filename, fmt)
    if fmt in EXACT:
        require(loaded == s, f"{fmt}: the loaded signal does not equal the original")
        if loaded.channels().dtype == s.channels().dtype and type(loaded.sampling_rate()) is type(s.sampling_rate()):
            equal(hash(loaded), hash(s), f"{fmt}: hash of the loaded signal")
    # the file can be overwritten by what has been loaded from it and stays the same
    if fmt not in ("OGG_VORBIS",) + COMPANDED and data.size:
        files.save(loaded, path, getattr(FORMATS, fmt))
        again = files.load(sumpf.Signal, path)
        if fmt in INTEGER:
            close(again.channels(), loaded.channels(), f"{fmt}: samples after saving what has been loaded", atol=2.0 * 2.0 ** (1 - INTEGER[fmt]))
        else:
            same_array(again.channels(), loaded.channels(), f"{fmt}: samples after saving what has been loaded")
        if not (fmt in TABLES and data.shape[1] < 2):
            nearly(again.sampling_rate(), loaded.sampling_rate(), f"{fmt}: sampling rate after saving what has been loaded", rtol=1e-10)
        equal(again.labels(), loaded.labels(), f"{fmt}: labels after saving what has been loaded")


# ---------------------------------------------------------------------------
# a history of saving files
# ---------------------------------------------------------------------------


@st.composite
def histories(draw):
    steps = []
    for _ in range(draw(st.integers(2, 6))):
        automatic = draw(st.integers(0, 2)) > 0
        if automatic:
            ext = draw(st.sampled_from(sorted(AUTO)))
            fmt = AUTO[ext]
        else:
            fmt = draw(st.sampled_from(ALL))
            ext = draw(st.sampled_from(extensions(fmt)))
        step = {"auto": automatic, "f": fmt, "s": draw(signal_cases(fmt)), "file": draw(st.sampled_from(["a", "b"])) + ext}
        if step["s"]["n"] > 100:
            step["s"]["n"] = 100
        steps.append(step)
    return {"steps": steps}


def check_history(case, ctx):
    current = {}
    for i, step in enumerate(case["steps"]):
        s, data = make(step["s"])
        path = ctx.tmp(step["file"])
        what = f"step {i}: {'AUTO' if step['auto'] else step['f']} {step['file']!r}"
        if step["file"] in current:
            ctx.label("overwritten")
            ctx.nontrivial_if(True)
        files.save(s, path, FORMATS.AUTO if step["auto"] and i % 2 else (None if step["auto"] else getattr(FORMATS, step["f"])))
        extension = os.path.splitext(step["file"])[1]
        require(files.content(path).startswith(files.MAGIC.get(extension, b"time")), f"{what}: the content of the file does not fit to its extension")
        current[step["file"]] = (step, data, what)
        ctx.label("auto" if step["auto"] else "explicit")
        for name, (saved, expected, description) in current.items():
            compare(files.load(sumpf.Signal, ctx.tmp(name)), saved["s"], expected, saved["f"], name, description)
    equal(sorted(os.listdir(os.path.dirname(ctx.tmp("x")))), sorted(current), "the files, that have been created")


# ---------------------------------------------------------------------------
# table files of other programs
# ---------------------------------------------------------------------------


@st.composite
def tables(draw):
    n = draw(st.integers(2, 12))
    c = draw(st.integers(1, 3))
    return {"n": n, "c": c, "seed": draw(gen.seed), "order": draw(st.permutations(list(range(n)))), "sr": draw(gen.sampling_rate), "o": draw(gen.offsets),
            "kind": draw(st.sampled_from(["csv", "csv", "npy"])), "header": draw(st.booleans()), "l": draw(gen.labels(c)), "titles": draw(st.sampled_from([0, 0, 0, -1, -2, 1, 2])), "ties": draw(st.booleans())}


def check_table(case, ctx):
    """The rows of a table are sorted by their time value"""
    rng = numpy.random.Generator(numpy.random.PCG64(case["seed"]))
    n, c = case["n"], case["c"]
    data = rng.integers(-1, 2, (c, n)).astype(float) if case["ties"] else rng.normal(size=(c, n))
    times = (numpy.arange(n) + case["o"]) / case["sr"]
    ctx.nontrivial_if(case["order"] != sorted(case["order"]))
    ctx.label(case["kind"])
    shuffled = numpy.concatenate([[times], data])[:, case["order"]]
    filename = "table." + case["kind"]
    path = ctx.tmp(filename)
    labels = gen.full_labels({"a": {"shape": [c]}, "l": case["l"]})
    if case["kind"] == "csv":
        with open(path, "w", newline="") as f:
            if case["header"]:
                # columns without a title have an empty label and titles without a column are ignored
                titles = (list(labels) + ["x", "y"])[0:max(0, c + case.get("titles", 0))]
                labels = tuple((titles + [""] * c)[0:c])
                import csv
                csv.writer(f).writerow(["t [s]"] + titles)
            else:
                labels = ("",) * c
            for row in shuffled.T:
                f.write(",".join(repr(float(v)) for v in row) + "\n")
    else:
        numpy.save(path, shuffled)
        labels = tuple(f"{filename} {i}" for i in range(1, c + 1))
    loaded = files.load(sumpf.Signal, path)
    same_array(loaded.channels(), data, "samples of a table with shuffled rows")
    nearly(loaded.sampling_rate(), case["sr"], "sampling rate of a table", rtol=1e-10)
    equal(loaded.offset(), case["o"], "offset of a table")
    equal(tuple(loaded.labels()), labels, "labels of a table")


SUBS = [Sub("roundtrip", roundtrips(), check_roundtrip, 4000, rule="a file with at least three samples is written and read"),
        Sub("history", histories(), check_history, 1000, rule="a file is overwritten"),
        Sub("table", tables(), check_table, 1000, rule="the rows of the table are not in their temporal order"),
        large.sub("P18")]
