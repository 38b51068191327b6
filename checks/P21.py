"""Loading picks the right reader and fails cleanly on everything else"""

import builtins
import os
import pickle
import numpy
import sumpf
from hypothesis import strategies as st
from vlib import files, filters, gen
from vlib.core import Sub, equal, fail, require, same_array

CLASSES = {"Signal": sumpf.Signal, "Spectrum": sumpf.Spectrum, "Spectrogram": sumpf.Spectrogram, "Filter": sumpf.Filter}
NUMBERED = ("NUMPY_NPY", "WAV", "AIFF", "FLAC", "OGG", "TEXT_TAB", "TEXT_PIPE", "TEXT_GNUPLOT")
FORMATS = {"Signal": ("TEXT_CSV", "TEXT_JSON", "NUMPY_NPZ", "NUMPY_NPY", "PYTHON_PICKLE", "WAV_UINT8", "WAV_INT16", "WAV_INT24", "WAV_INT32", "WAV_FLOAT32", "WAV_FLOAT64", "WAV_ULAW",
                      "AIFF_INT8", "AIFF_INT16", "AIFF_INT24", "AIFF_INT32", "AIFF_FLOAT32", "AIFF_FLOAT64", "AIFF_ULAW", "FLAC_INT8", "FLAC_INT16", "FLAC_INT24", "OGG_VORBIS"),
           "Spectrum": ("TEXT_CSV", "TEXT_JSON", "NUMPY_NPZ", "NUMPY_NPY", "PYTHON_PICKLE"),
           "Spectrogram": ("TEXT_JSON", "NUMPY_NPZ", "PYTHON_PICKLE"),
           "Filter": ("TEXT_JSON", "TEXT_REPR", "PYTHON_PICKLE"),
           "Bands": ("TEXT_TAB_I", "TEXT_TAB_J", "TEXT_PIPE_I", "TEXT_PIPE_J", "TEXT_GNUPLOT", "TEXT_CSV", "TEXT_JSON", "TEXT_REPR", "NUMPY_NPY", "NUMPY_NPZ", "PYTHON_PICKLE")}
EXTENSIONS = ["", ".csv", ".json", ".js", ".npz", ".npy", ".pickle", ".wav", ".aiff", ".flac", ".ogg", ".txt", ".dat", ".asc", ".tab", ".xyz", ".WAV", ".bak"]
FREQUENCIES = numpy.array([0.5, 3.0, 20.0, 123.0, 1000.0])


# ---------------------------------------------------------------------------
# containment: the readers for pickled objects and for repr-strings execute the
# content of the files. When they are fed with corrupted files, they get stand-ins,
# that can not do more than to create objects.
# ---------------------------------------------------------------------------

class _Unpickler(pickle.Unpickler):
    def find_class(self, module, name):
        result = None
        if module.split(".")[0] in ("sumpf", "numpy") and "." not in name:
            result = super().find_class(module, name)
        if name in ("_reconstruct", "scalar", "_frombuffer") or isinstance(result, type) and not issubclass(result, numpy.lib._datasource.DataSource):   # pylint: disable=protected-access
            return result
        raise pickle.UnpicklingError("forbidden")


def _load(f, **kwargs):
    return _Unpickler(f, **kwargs).load()


def _eval(source, global_variables=None, local_variables=None):
    if "**" in source or "__" in source or "<<" in source:
        raise ValueError("forbidden")
    return builtins.eval(source, {"__builtins__": {}}, dict(local_variables or {}))


class Contained:
    def __enter__(self):
        self.load = pickle.load
        pickle.load = _load
        self.module = sumpf._internal._persistence._filter_readers     # pylint: disable=protected-access
        self.module.eval = _eval

    def __exit__(self, *args):
        pickle.load = self.load
        del self.module.eval


# ---------------------------------------------------------------------------
# valid files
# ---------------------------------------------------------------------------


@st.composite
def valid_files(draw, kinds=("Signal", "Signal", "Spectrum", "Spectrogram", "Filter", "Bands")):
    kind = draw(st.sampled_from(kinds))
    fmt = draw(st.sampled_from(FORMATS[kind]))
    c = draw(st.integers(1, 3))
    case = {"k": kind, "f": fmt}
    if kind == "Signal":
        case["o"] = draw(gen.signals(channels=(c, c), lengths=(2, 20)))
        case["zero"] = draw(st.integers(0, 3)) == 0
        case["o"]["sr"] = draw(st.sampled_from([48000.0, 44100.0, 8000.0, 96000.0, 1000.0]))
        if fmt in ("AIFF_ULAW", "AIFF_INT8"):     # see known_findings.json
            case["o"]["a"] = draw(gen.arrays((c, 2 * draw(st.integers(1, 8)))))
    elif kind == "Spectrum":
        case["o"] = draw(gen.spectrums(channels=(c, c), lengths=(2, 12)))
    elif kind == "Spectrogram":
        case["o"] = draw(gen.spectrograms(channels=(c, c)))
    elif kind == "Filter":
        case["o"] = draw(filters.filters(max_leaves=3, leaves=st.one_of(filters.polynomial(), filters.exponential())))
    else:
        case["o"] = {"c": draw(st.lists(filters.bands_term().filter(lambda b: b["xs"]), min_size=c, max_size=c)), "l": draw(st.lists(gen.label_text, min_size=c, max_size=c))}
    return case


def make(case):
    if case["k"] == "Filter":
        try:
            f = filters.make(case["o"])
        except ZeroDivisionError:
            return sumpf.Filter()
        return sumpf.Filter() if "nan" in repr(f) or "inf" in repr(f) else f
    if case["k"] == "Bands":
        bands = case["o"]["c"]
        return sumpf.Bands(bands=[dict(zip(b["xs"], map(gen.dec, b["ys"]))) for b in bands], interpolations=[b["i"] for b in bands], extrapolations=[b["e"] for b in bands], labels=case["o"]["l"])
    obj = gen.make(case["o"])
    if case["k"] == "Signal" and case["f"].split("_")[0] in ("WAV", "AIFF", "FLAC", "OGG"):
        obj = obj * (0.0 if case["zero"] else 1.0 / max(1.0, float(numpy.abs(obj.channels()).max())))
    return obj


def class_of(case):
    return CLASSES["Filter" if case["k"] == "Bands" else case["k"]]


def same_object(a, b, what, labels=True):
    require(type(a) is type(b), f"{what}: the loaded object is a {type(a).__name__} instead of a {type(b).__name__}")
    if labels:
        equal(tuple(a.labels()), tuple(b.labels()), f"{what}: labels")
    equal(len(a), len(b), f"{what}: number of channels")
    if isinstance(a, sumpf.Filter):
        with numpy.errstate(all="ignore"):
            for x, y in zip(a(FREQUENCIES), b(FREQUENCIES)):
                same_array(numpy.broadcast_to(x, FREQUENCIES.shape), numpy.broadcast_to(y, FREQUENCIES.shape), f"{what}: response")
        return
    same_array(a.channels(), b.channels(), f"{what}: data")
    for method in ("sampling_rate", "resolution", "offset"):
        if hasattr(b, method):
            equal(getattr(a, method)(), getattr(b, method)(), f"{what}: {method}")


def well_formed(obj, cls, what):
    """checks, that an object, which has been loaded from a broken file, has a consistent state"""
    require(isinstance(obj, cls), f"{what}: the loaded object is a {type(obj).__name__} instead of a {cls.__name__}")
    labels = obj.labels()
    require(isinstance(labels, tuple) and len(labels) == len(obj), f"{what}: the labels {labels!r} of the loaded object with {len(obj)} channels")
    repr(obj)
    if cls is sumpf.Filter:
        equal(len(obj.transfer_functions()), len(obj), f"{what}: number of transfer functions")
        return
    channels = obj.channels()
    require(isinstance(channels, numpy.ndarray), f"{what}: the channels are not an array")
    equal(channels.ndim, 3 if cls is sumpf.Spectrogram else 2, f"{what}: dimensions of the channels")
    require(channels.dtype.kind in "fciub", f"{what}: data type {channels.dtype} of the channels")
    equal(tuple(obj.shape()), channels.shape, f"{what}: shape()")
    equal(obj.length(), channels.shape[-1], f"{what}: length()")


# ---------------------------------------------------------------------------
# finding the reader
# ---------------------------------------------------------------------------


@st.composite
def renamed(draw):
    return {"files": draw(st.lists(st.tuples(valid_files(), st.sampled_from(EXTENSIONS)).map(list), min_size=1, max_size=3))}


def check_renamed(case, ctx):
    """Files are loaded correctly, even if their extension does not fit to their content"""
    for i, (valid, extension) in enumerate(case["files"]):
        obj = make(valid)
        fmt = valid["f"]
        cls = class_of(valid)
        original = {"WAV": ".wav", "AIFF": ".aiff", "FLAC": ".flac", "OGG": ".ogg", "NUMPY": "." + fmt[-3:].lower(), "PYTHON": ".pickle"}.get(fmt.split("_")[0]) or \
                   {"TEXT_CSV": ".csv", "TEXT_JSON": ".json"}.get(fmt, ".txt")
        path = ctx.tmp(f"original{i}{original}")
        files.save(obj, path, getattr(obj.file_formats, fmt))
        reference = files.load(cls, path)
        other = ctx.tmp(f"renamed{i}{extension}")
        with open(other, "wb") as f:
            f.write(files.content(path))
        ctx.label(f"{valid['k']} {fmt}", extension)
        ctx.nontrivial_if(extension != original)
        what = f"{valid['k']} {fmt} with the extension {extension!r}"
        loaded = files.load(cls, other)
        same_object(loaded, reference, what, labels=not fmt.startswith(NUMBERED))
        if fmt.startswith(NUMBERED):
            equal(tuple(loaded.labels()), tuple(f"renamed{i}{extension} {k}" for k in range(1, len(obj) + 1)), f"{what}: labels")


# ---------------------------------------------------------------------------
# broken files
# ---------------------------------------------------------------------------

FRAGMENTS = ["time", "frequency", ",", ",", "\n", "\n", "1.0", "2", "-3.5e2", "nan", "inf", "1+2j", "(1-2j)", "{", "}", "[", "]", "\"channels\"", ":", "\"real\"", "\"imaginary\"", "\"labels\"",
             "\"transfer_functions\"", "null", "true", "# ", ";", "|", "\t", " ", "Filter(", "Bands(", "Filter.Constant(1.0)", ")", "\"", "'", "{1.0,2.0}", "\r\n", "\x00", "é", "bands=", "labels=()"]


@st.composite
def damages(draw):
    kind = draw(st.sampled_from(["truncate", "truncate", "bytes", "insert", "delete", "duplicate", "random", "text", "empty", "none", "swap"]))
    case = {"d": kind, "at": draw(st.integers(0, 10000)), "seed": draw(gen.seed), "n": draw(st.integers(1, 6))}
    if kind == "text":
        case["text"] = draw(st.lists(st.sampled_from(FRAGMENTS), max_size=14))
    return case


def damage(content, case):
    rng = numpy.random.Generator(numpy.random.PCG64(case["seed"]))
    kind = case["d"]
    position = case["at"] * len(content) // 10001
    if kind == "truncate":
        return content[0:position]
    if kind == "bytes":
        b = bytearray(content)
        for _ in range(case["n"]):
            if b:
                k = int(rng.integers(0, len(b)))
                b[k] = int(rng.integers(0, 256)) if case["at"] % 2 else b[k] ^ (1 << int(rng.integers(0, 8)))
        return bytes(b)
    if kind == "insert":
        return content[0:position] + rng.bytes(case["n"]) + content[position:]
    if kind == "delete":
        return content[0:position] + content[position + case["n"]:]
    if kind == "duplicate":
        return content[0:position] + content
    if kind == "swap":
        return content[position:] + content[0:position]
    if kind == "random":
        return rng.bytes(case["at"] % 300)
    if kind == "text":
        return "".join(case["text"]).encode()
    if kind == "empty":
        return b""
    return content


@st.composite
def broken(draw):
    return {"files": draw(st.lists(st.tuples(valid_files(), damages(), st.sampled_from(EXTENSIONS + [None] * 8), st.sampled_from([None, None, *CLASSES])).map(list), min_size=1, max_size=4)),
            "valid": draw(valid_files(kinds=("Signal", "Spectrum", "Spectrogram", "Bands")))}


OWN = {"NUMPY_NPZ": ".npz", "NUMPY_NPY": ".npy", "PYTHON_PICKLE": ".pickle", "TEXT_CSV": ".csv", "TEXT_JSON": ".json", "TEXT_REPR": ".txt"}


def extension_of(fmt):
    return OWN.get(fmt) or {"WAV": ".wav", "AIFF": ".aiff", "FLAC": ".flac", "OGG": ".ogg", "TEXT": ".txt"}[fmt.split("_", maxsplit=1)[0]]


def check_broken(case, ctx):
    """Loading a broken file raises a ValueError or returns a well-formed object and does not affect the loading of other files"""
    valid = case["valid"]
    obj = make(valid)
    good = ctx.tmp("good" + extension_of(valid["f"]))
    files.save(obj, good, getattr(obj.file_formats, valid["f"]))
    reference = files.load(class_of(valid), good)
    for i, (source, harm, extension, target) in enumerate(case["files"]):
        original = make(source)
        path = ctx.tmp(f"source{i}{extension_of(source['f'])}")
        files.save(original, path, getattr(original.file_formats, source["f"]))
        if source["f"] == "PYTHON_PICKLE" and harm["d"] in ("bytes", "insert", "delete", "swap"):
            harm = {**harm, "d": "truncate"}    # a pickle with other content is a program, that creates another object
        content = damage(files.content(path), harm)
        cls = CLASSES[target] if target else class_of(source)
        path = ctx.tmp(f"broken{i}{extension_of(source['f']) if extension is None else extension}")
        with open(path, "wb") as f:
            f.write(content)
        what = f"{source['k']} {source['f']} ({harm['d']}) loaded as {cls.__name__} from {os.path.basename(path)!r}"
        with Contained():
            try:
                loaded = cls.load(path)
            except ValueError:
                ctx.label(f"{harm['d']}: ValueError")
            except Exception as e:  # pylint: disable=broad-except
                fail(f"{what}: {type(e).__name__} instead of a ValueError: {str(e)[:200]}")
            else:
                well_formed(loaded, cls, what)
                ctx.label(f"{harm['d']}: loaded")
        equal(files.content(path) == content, True, "the broken file is unchanged by loading it")
        ctx.nontrivial_if(harm["d"] not in ("none", "empty"))
        same_object(files.load(class_of(valid), good), reference, f"{valid['f']} loaded after an attempt of loading {what}")


# ---------------------------------------------------------------------------
# requests, that cannot be fulfilled
# ---------------------------------------------------------------------------


@st.composite
def unsupported(draw):
    return {"o": draw(valid_files()), "how": draw(st.sampled_from(["extension", "foreign", "value", "bands", "missing", "directory"])), "ext": draw(st.sampled_from(["", ".xyz", ".WAV", ".mp3", ".", ".txt2"])),
            "format": draw(st.sampled_from(["WAV_INT16", "TEXT_CSV", "NUMPY_NPZ", "AUTO", "TEXT_PIPE_I", "NUMPY_NPY"])), "value": draw(st.sampled_from([None, "wav", 1, ".wav", "TEXT_CSV"])),
            "exists": draw(st.booleans()), "cls": draw(st.sampled_from(sorted(CLASSES)))}


def check_unsupported(case, ctx):
    valid = case["o"]
    obj = make(valid)
    how = case["how"]
    ctx.label(how)
    if how in ("missing", "directory"):
        path = ctx.tmp("missing" + case["ext"])
        if how == "directory":
            os.mkdir(path)
        try:
            loaded = CLASSES[case["cls"]].load(path)
        except ValueError:
            require(os.path.isdir(path) == (how == "directory"), "loading a missing file has created something")
            ctx.nontrivial_if(True)
            return
        fail(f"loading a {'directory' if how == 'directory' else 'missing file'} returned {loaded!r}")
    path = ctx.tmp("file" + case["ext"])
    formats = obj.file_formats
    if how == "extension":
        file_format = formats.AUTO
    elif how == "value":
        file_format = case["value"]
        path = ctx.tmp("file.wav")
    elif how == "bands":
        # only bands filters can be stored in tables
        obj = sumpf.Filter(transfer_functions=(sumpf.Filter.Constant(2.0), sumpf.Filter.Polynomial((1.0, 2.0))))
        file_format = getattr(sumpf.Bands.file_formats, case["format"] if case["format"] in ("TEXT_CSV", "NUMPY_NPZ", "TEXT_PIPE_I", "NUMPY_NPY") else "TEXT_TAB_J")
    else:
        foreign = {"Signal": sumpf.Spectrum, "Spectrum": sumpf.Signal, "Spectrogram": sumpf.Signal, "Filter": sumpf.Signal, "Bands": sumpf.Signal}[valid["k"]].file_formats
        file_format = getattr(foreign, case["format"], foreign.AUTO)
        if file_format is foreign.AUTO or not isinstance(file_format, foreign):
            file_format = foreign.NUMPY_NPZ
    if case["exists"]:
        with open(path, "wb") as f:
            f.write(b"content")
    try:
        obj.save(path, file_format)
    except ValueError:
        pass
    else:
        fail(f"saving a {valid['k']} as {file_format} in {os.path.basename(path)!r} did not raise an error")
    ctx.nontrivial_if(True)
    equal(os.path.exists(path), case["exists"], "existence of the file after an unsupported request")
    if case["exists"]:
        equal(files.content(path), b"content", "content of the file after an unsupported request")


SUBS = [Sub("renamed", renamed(), check_renamed, 1200, rule="the extension of a file does not fit to its content"),
        Sub("broken", broken(), check_broken, 1600, rule="a file is damaged"),
        Sub("unsupported", unsupported(), check_unsupported, 800, rule="all cases")]
ASSUMPTIONS = ["the readers of pickles and repr-strings execute code by design: damaged files are read with stand-ins for pickle.load and eval, which can only create sumpf and NumPy objects"]
