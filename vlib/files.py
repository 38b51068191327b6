"""Common parts of the checks of loading and saving files"""

import os
import pathlib
from hypothesis import strategies as st
from .core import equal, require

names = st.sampled_from(["a", "b c", "x.y", "ünï", "data", "a-1"])
MAGIC = {".wav": b"RIFF", ".aiff": b"FORM", ".aif": b"FORM", ".aifc": b"FORM", ".flac": b"fLaC", ".ogg": b"OggS", ".oga": b"OggS",
         ".npz": b"PK", ".npy": b"\x93NUMPY", ".json": b"{", ".js": b"{", ".pickle": b"\x80"}


def save(obj, path, fmt, as_path=False):
    """Saves the given object and checks, what the documentation says about the save-method"""
    argument = pathlib.Path(path) if as_path else path
    result = obj.save(argument) if fmt is None else obj.save(argument, fmt)
    require(result is obj, "the save method does not return the saved object")
    require(os.path.isfile(path), f"saving did not create the file {os.path.basename(path)!r}")
    return path


def load(cls, path, as_path=False):
    """Loads a file and checks, that this does not change it"""
    with open(path, "rb") as f:
        before = f.read()
    result = cls.load(pathlib.Path(path) if as_path else path)
    with open(path, "rb") as f:
        equal(f.read() == before, True, "the file is unchanged by loading it")
    require(isinstance(result, cls), f"loading a {cls.__name__} file returns a {type(result).__name__}")
    return result


def content(path):
    with open(path, "rb") as f:
        return f.read()


def usable(obj, what):
    """A loaded object is an ordinary, comparable and hashable value"""
    require(obj == obj, f"{what}: the loaded object does not equal itself")     # pylint: disable=comparison-with-itself
    hash(obj)
    repr(obj)
