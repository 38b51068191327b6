"""Makes the use of uninitialized memory visible

The content of the arrays, that are created with numpy.empty, is undefined, but
most of the time it happens to be zero or the result of the previous case. Here,
these arrays are filled with a value, which is as good as any other one.
"""

import numpy

GARBAGE = {"f": 1.5e30, "c": complex(1.5e30, -1.5e30), "i": 90, "u": 90, "b": True}


def _poisoned(function):
    def poisoned(*args, **kwargs):
        result = function(*args, **kwargs)
        if type(result) is numpy.ndarray and result.dtype.kind in GARBAGE and result.dtype.itemsize <= 16:      # pylint: disable=unidiomatic-typecheck
            with numpy.errstate(all="ignore"):
                result.fill(GARBAGE[result.dtype.kind])
        return result
    poisoned.poisoned = True
    return poisoned


for name in ("empty", "empty_like"):
    if not hasattr(getattr(numpy, name), "poisoned"):
        setattr(numpy, name, _poisoned(getattr(numpy, name)))
