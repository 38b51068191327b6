"""Without its optional dependencies, the package does everything, that does not require them"""

import importlib
import os
from hypothesis import strategies as st
import numpy
import sumpf
from vlib import bare, files, gen
from vlib.core import HarnessError, Reject, Sub, close, equal, fail, require, same_array

LIBRARIES = ("jack", "numexpr", "scipy", "soundfile")
MISSING = (LIBRARIES, LIBRARIES, ("scipy",), ("soundfile",), ("numexpr",), ("numexpr", "scipy"))

# ---------------------------------------------------------------------------
# the client side
# ---------------------------------------------------------------------------

CLIENTS = {}


def ask(missing, ctx, check, sub, case):
    """Has a case decided by a process, in which the given libraries are missing"""
    key = ",".join(missing)
    if key not in CLIENTS:
        CLIENTS[key] = bare.Client(missing)
    if CLIENTS[key].failure == "HARNESS":
        raise HarnessError("the process could not be started")
    if CLIENTS[key].failure:
        fail(f"without {', '.join(missing)}: the package cannot be imported: {CLIENTS[key].failure}")
    answer = CLIENTS[key](check=check, sub=sub, case=case)
    what = f"without {', '.join(missing)}: {check} {sub}"
    if "dead" in answer:
        del CLIENTS[key]
        fail(f"{what}: the process ended with the exit code {answer['dead']}")
    if "error" in answer:
        raise HarnessError(answer["error"])
    if answer["rejected"]:
        raise Reject()
    if answer["message"] is not None:
        fail(f"{what}: {answer['message']}")
    return answer


# ---------------------------------------------------------------------------
# features, that do not require the missing libraries
# ---------------------------------------------------------------------------

FREE = {"P01": "pair array relation", "P02": "pair array unary", "P03": "pair array", "P04": "index split filter", "P05": "shift pad unary", "P06": "forward inverse relation",
        "P09": "definition", "P10": "inverse", "P11": "spectrum level_vs_time decay", "P12": "filters labels", "P13": "terms filters bands_filters", "P14": "sampling data",
        "P15": "response", "P16": "weighting delay derivative", "P17": "interpolation decibel default", "P19": "roundtrip table", "P20": "filters predefined bands table", "P18": "table",
        "P22": "history overlay", "P23": "history merge", "P25": "samples inverse harmonic samples inverse harmonic samples samples", "P26": "wave constant fade rudin_shapiro"}


@st.composite
def free_cases(draw):
    check, names = draw(st.sampled_from(sorted(FREE.items()) + [("P25", FREE["P25"])] * 6))
    sub = draw(st.sampled_from(names.split()))
    subs = {s.name: s for s in importlib.import_module(f"checks.{check}").SUBS}
    return {"missing": draw(st.sampled_from(MISSING)), "check": check, "sub": sub, "case": draw(subs[sub].strategy)}


def check_free(case, ctx):
    answer = ask(case["missing"], ctx, case["check"], case["sub"], case["case"])
    ctx.nontrivial_if(answer["nontrivial"])
    ctx.label(case["check"], "without " + ", ".join(case["missing"]))


# ---------------------------------------------------------------------------
# files
# ---------------------------------------------------------------------------


def without_soundfile(fmt):
    """True, if signals can be saved in the given format without the soundfile library"""
    p18 = importlib.import_module("checks.P18")
    return fmt in p18.EXACT + p18.TABLES + tuple(p18.STANDARD)


@st.composite
def file_cases(draw):
    p18 = importlib.import_module("checks.P18")
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.booleans()):
            ext = draw(st.sampled_from(sorted(p18.AUTO) + [".wav", ".aiff", ".aif"]))
            step = {"f": None, "ext": ext, "s": draw(p18.signal_cases("WAV_INT16"))}
            if step["s"]["n"] > 60 and ext in (".json", ".js", ".csv"):
                step["s"]["n"] = 60
        else:
            fmt = draw(st.sampled_from(p18.ALL))
            step = {"f": fmt, "ext": draw(st.sampled_from(p18.extensions(fmt))), "s": draw(p18.signal_cases(fmt))}
        steps.append(step)
    return {"missing": draw(st.sampled_from([LIBRARIES, ("soundfile",), ("numexpr", "scipy")])), "steps": steps}


def saved_in_process(case, ctx):
    """the part of the check, that runs in the process without the libraries"""
    p18 = importlib.import_module("checks.P18")
    missing = "soundfile" in case["missing"]
    formats = sumpf.Signal.file_formats
    for i, step in enumerate(case["steps"]):
        s, data = p18.make(step["s"])
        snapshot = gen.Snapshot(s)
        name = f"file{i}{step['ext']}"
        path = ctx.tmp(name)
        fmt = step["f"] or p18.AUTO[step["ext"]]
        what = f"step {i}: {step['f'] or 'AUTO'} {step['ext']}"
        if step["f"] is None and missing:
            fmt = {".wav": "WAV_INT32", ".aiff": "AIFF_INT32", ".aif": "AIFF_INT32", ".aifc": "AIFF_INT32"}.get(step["ext"], fmt)
        if missing and not without_soundfile(fmt):
            # the documentation does not specify the error, but the writer raises an ImportError and the function, that looks for a writer, a ValueError
            try:
                s.save(path, formats.AUTO if step["f"] is None else getattr(formats, fmt))
            except (ImportError, ValueError):
                ctx.label("not available")
            else:
                fail(f"{what}: saving to the format {fmt} works without the soundfile library")
        else:
            files.save(s, path, None if step["f"] is None else getattr(formats, fmt))
            loaded = files.load(sumpf.Signal, path)
            p18.compare(loaded, step["s"], data, fmt, name, what)
            ctx.nontrivial_if(missing and data.size > 2)
            ctx.label(fmt)
        snapshot.check(what)


def check_files(case, ctx):
    answer = ask(case["missing"], ctx, "P30", "saved", case)
    ctx.nontrivial_if(answer["nontrivial"])
    for step in case["steps"]:
        ctx.label(step["f"] or "AUTO " + step["ext"])


# ---------------------------------------------------------------------------
# files of other programs
# ---------------------------------------------------------------------------

SUBTYPES = {"WAV": ["PCM_U8", "PCM_16", "PCM_32", "PCM_24", "FLOAT", "DOUBLE", "ULAW"], "AIFF": ["PCM_S8", "PCM_16", "PCM_32", "PCM_24", "FLOAT"], "FLAC": ["PCM_16"], "OGG": ["VORBIS"]}
BITS = {"PCM_U8": 8, "PCM_S8": 8, "PCM_16": 16, "PCM_32": 32}


@st.composite
def foreign_cases(draw):
    fmt = draw(st.sampled_from(["WAV", "WAV", "AIFF", "AIFF", "FLAC", "OGG"]))
    return {"missing": draw(st.sampled_from([LIBRARIES, ("soundfile",)])), "f": fmt, "sub": draw(st.sampled_from(SUBTYPES[fmt])), "c": draw(st.integers(1, 4)),
            "n": 2 * draw(st.one_of(st.integers(1, 30), st.sampled_from([1024, 1025, 2500]))), "seed": draw(gen.seed), "sr": draw(st.sampled_from([44100, 48000, 8000])),
            "ext": draw(st.sampled_from([None, None, None, ".dat", ".csv"]))}


def loaded_in_process(case, ctx):
    """the part of the check, that runs in the process without the libraries"""
    what = f"{case['f']} {case['sub']} file of another program"
    try:
        loaded = files.load(sumpf.Signal, case["path"])
    except ValueError:
        require(case["sub"] not in BITS or case["f"] not in ("WAV", "AIFF"), f"{what}: loading fails without the soundfile library")
        ctx.label("not available")
        return
    equal(loaded.shape(), (case["c"], case["n"]), f"{what}: shape")
    rng = numpy.random.Generator(numpy.random.PCG64(case["seed"]))
    data = rng.uniform(-0.99, 0.99, (case["c"], case["n"]))
    if case["sub"] in BITS:
        step = 2.0 ** (1 - BITS[case["sub"]])
        close(loaded.channels(), data, f"{what}: samples", rtol=0.0, atol=1.01 * step)
    else:
        close(loaded.channels(), data, f"{what}: samples", rtol=0.05, atol=0.01)
    equal(loaded.sampling_rate(), case["sr"], f"{what}: sampling rate")
    equal(tuple(loaded.labels()), tuple(f"{os.path.basename(case['path'])} {i}" for i in range(1, case["c"] + 1)), f"{what}: labels")
    ctx.nontrivial_if(True)


def check_foreign(case, ctx):
    import soundfile    # pylint: disable=import-outside-toplevel
    path = ctx.tmp("foreign" + (case["ext"] or {"WAV": ".wav", "AIFF": ".aiff", "FLAC": ".flac", "OGG": ".ogg"}[case["f"]]))
    rng = numpy.random.Generator(numpy.random.PCG64(case["seed"]))
    data = rng.uniform(-0.99, 0.99, (case["c"], case["n"]))
    with soundfile.SoundFile(path, "w", samplerate=case["sr"], channels=case["c"], format=case["f"], subtype=case["sub"]) as f:
        f.write(data.T)
    answer = ask(case["missing"], ctx, "P30", "loaded", dict(case, path=path))
    ctx.nontrivial_if(answer["nontrivial"])
    ctx.label(f"{case['f']} {case['sub']}")


# ---------------------------------------------------------------------------
# features, that require scipy
# ---------------------------------------------------------------------------

WINDOWS = ("BartlettHannWindow", "BlackmanHarrisWindow", "BohmanWindow", "DolphChebyshevWindow", "ExponentialWindow", "FlatTopWindow", "GaussianWindow", "NuttallWindow", "ParzenWindow", "SlepianWindow")
CLASSES = WINDOWS + ("MaximumLengthSequence", "Jack")
METHODS = ("skewness", "kurtosis", "short_time_fourier_transform", "inverse_short_time_fourier_transform")


@st.composite
def feature_cases(draw):
    return {"missing": draw(st.sampled_from(MISSING + (("jack",),))), "feature": draw(st.sampled_from(CLASSES + METHODS + METHODS)), "n": draw(st.integers(4, 40)), "seed": draw(gen.seed), "c": draw(st.integers(1, 3))}


def feature_in_process(case, ctx):
    """the part of the check, that runs in the process without the libraries"""
    rng = numpy.random.Generator(numpy.random.PCG64(case["seed"]))
    data = rng.normal(size=(case["c"], case["n"]))
    signal = sumpf.Signal(data)
    name = case["feature"]
    requires = "jack" if name == "Jack" else "scipy"
    try:
        if name == "Jack":
            sumpf.Jack      # pylint: disable=pointless-statement; the server cannot be started
            return
        elif name in CLASSES:
            getattr(sumpf, name)(length=case["n"] + 8)     # a Slepian window must not be too short for its bandwidth
        elif name == "short_time_fourier_transform":
            signal.short_time_fourier_transform(window=sumpf.HannWindow(length=4), overlap=2)
        elif name == "inverse_short_time_fourier_transform":
            sumpf.Spectrogram(channels=rng.normal(size=(case["c"], 3, case["n"])) + 1j).inverse_short_time_fourier_transform(window=sumpf.HannWindow(length=4), overlap=2)
        else:
            getattr(signal, name)()
    except (ImportError, AttributeError) as e:
        require(requires in case["missing"], f"{name} is not available, although {requires} is installed ({type(e).__name__}: {e})")
        require(isinstance(e, ImportError) or not hasattr(sumpf, name), f"{name}: {type(e).__name__}: {e}")
        ctx.nontrivial_if(True)
    same_array(signal.channels(), data, "the signal after using the feature")


def check_features(case, ctx):
    answer = ask(case["missing"], ctx, "P30", "feature", case)
    ctx.nontrivial_if(answer["nontrivial"])
    ctx.label(case["feature"])


INNER = [Sub("saved", None, saved_in_process, 0), Sub("loaded", None, loaded_in_process, 0), Sub("feature", None, feature_in_process, 0)]
SUBS = [Sub("features", free_cases(), check_free, quick=4000, rule="a case, that is non-trivial for the property, to which it belongs"),
        Sub("files", file_cases(), check_files, quick=600, rule="a file with more than two samples is written and read without the soundfile library"),
        Sub("foreign", foreign_cases(), check_foreign, quick=400, rule="the file can be read without the soundfile library"),
        Sub("optional", feature_cases(), check_features, quick=300, rule="the feature requires a missing library")]
ASSUMPTIONS = ["a missing library is emulated by an import system, that does not find it; the other checks' oracles may still use it",
               "the cases and the oracles of the features are those of the properties P01–P26"]
