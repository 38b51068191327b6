From 54c86a2a520fc038c5ee362e6d35bde091422d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 01/50] fix: support NumPy arrays and scalars on the left hand
 side of operators (infinite recursion)

---
 sumpf/_data/_filters/_base/_filter.py | 2 ++
 sumpf/_data/_sampled_data.py          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 028bc70..d7cece1 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -104,6 +104,8 @@ class Filter:
        * inverting the filter with ``~filter_``. The inverse of a spectrum is
          simply ``1 / filter_``.
     """
+    __array_ufunc__ = None  # makes NumPy scalars on the left hand side of an operator use the right hand side overloads of this class
+
     # terms for defining transfer functions
     Constant = terms.Constant.factory
     Polynomial = terms.Polynomial.factory
diff --git a/sumpf/_data/_sampled_data.py b/sumpf/_data/_sampled_data.py
index 1bb5c52..04489c0 100644
--- a/sumpf/_data/_sampled_data.py
+++ b/sumpf/_data/_sampled_data.py
@@ -23,6 +23,8 @@ import sumpf._internal as sumpf_internal
 class SampledData:
     """Base class for data containers with channels of sampled data and labels."""
 
+    __array_ufunc__ = None  # makes NumPy arrays and scalars on the left hand side of an operator use the right hand side overloads of this class
+
     def __init__(self, channels, labels):
         """
         :param channels: a two-dimensional :func:`numpy.array`
-- 
2.43.0


From 2ae8212c5e5624e72bc69f523ed21c62e549da54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 02/50] fix: indexing with -1 and the offset of slices with
 out-of-range bounds

---
 sumpf/_data/_signals/_signal.py           | 4 ++--
 sumpf/_data/_spectrograms/_spectrogram.py | 4 ++--
 sumpf/_internal/_indexing.py              | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index cb9a430..622f499 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -108,9 +108,9 @@ class Signal(SampledData):
         if isinstance(slices, tuple):
             if slices[1].start:
                 if slices[1].start < 0:
-                    offset += self._length + slices[1].start
+                    offset += max(self._length + slices[1].start, 0)
                 else:
-                    offset += slices[1].start
+                    offset += min(slices[1].start, self._length)
             c = slices[0]
         else:
             c = slices
diff --git a/sumpf/_data/_spectrograms/_spectrogram.py b/sumpf/_data/_spectrograms/_spectrogram.py
index 69522b2..f8f9d07 100644
--- a/sumpf/_data/_spectrograms/_spectrogram.py
+++ b/sumpf/_data/_spectrograms/_spectrogram.py
@@ -113,9 +113,9 @@ class Spectrogram(SampledData):
             if len(slices) == 3:
                 if slices[2].start:
                     if slices[2].start < 0:
-                        offset += self._length + slices[2].start
+                        offset += max(self._length + slices[2].start, 0)
                     else:
-                        offset += slices[2].start
+                        offset += min(slices[2].start, self._length)
             c = slices[0]
         else:
             c = slices
diff --git a/sumpf/_internal/_indexing.py b/sumpf/_internal/_indexing.py
index 009e393..7f920ab 100644
--- a/sumpf/_internal/_indexing.py
+++ b/sumpf/_internal/_indexing.py
@@ -54,7 +54,7 @@ def key_to_slices(key, shape):
     :returns: a slice or a tuple of slices, if the shape is multidimensional
     """
     if isinstance(key, int):
-        return slice(key, key + 1)
+        return slice(key, key + 1 if key != -1 else None)
     elif isinstance(key, float):
         key = index(key, (shape[0] - 1))
         return slice(key, key + 1)
-- 
2.43.0


From a5270ce21c7c7f0dfe5134742fa8e53492cc448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 03/50] fix: the level of spectrums with only one bin counted
 that bin twice

---
 sumpf/_data/_spectrums/_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumpf/_data/_spectrums/_spectrum.py b/sumpf/_data/_spectrums/_spectrum.py
index 5a64aeb..3f2af93 100644
--- a/sumpf/_data/_spectrums/_spectrum.py
+++ b/sumpf/_data/_spectrums/_spectrum.py
@@ -379,12 +379,12 @@ class Spectrum(SampledData):
         signal_length = max(1, (self._length - 1) * 2)
         abs_ = numpy.abs(self._channels)
         square = numpy.square(abs_, out=abs_)
+        square[:, 1:-1] *= 2.0   # all bins, except for the first and the last one, have a counterpart at the negative frequencies
         if single_value:
-            sum_ = math.fsum(math.fsum((math.fsum(c[1:-1]) * 2, c[0], c[-1])) for c in square)
+            sum_ = math.fsum(math.fsum(c) for c in square)
             return math.sqrt(sum_ / len(self)) / signal_length
         else:
-            return numpy.fromiter((math.sqrt(math.fsum((math.fsum(c[1:-1]) * 2, c[0], c[-1]))) / signal_length for c in square),    # pylint: disable=line-too-long; don't know where to break without making the readability even worse
-                                  dtype=numpy.float64)
+            return numpy.fromiter((math.sqrt(math.fsum(c)) / signal_length for c in square), dtype=numpy.float64)
 
     #######################
     # persistence methods #
-- 
2.43.0


From c6dbabb10c59db6be95be15a6957283bbf6ee773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 04/50] fix: the phase compensation for the offset's remainder
 in the short time Fourier transform

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 622f499..3e97a9f 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -556,7 +556,7 @@ class Signal(SampledData):
         offset = int(round(self.__offset / step))
         offset_remainder = self.__offset - (offset * step)
         if offset_remainder:
-            max_frequency = (window_length - 1) * resolution
+            max_frequency = (window_length // 2) * resolution
             compensation = numpy.linspace(0.0, max_frequency, window_length // 2 + 1, dtype=numpy.complex128)
             compensation *= -1j * 2.0 * math.pi * (offset_remainder / self.__sampling_rate)
             numpy.exp(compensation, out=compensation)
-- 
2.43.0


From e87053afd5a63ce9ed59513dafcbaf61f22d1c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 05/50] fix: a lowpass-to-highpass transform in one channel of
 a filter set the 0Hz samples of the other channels to zero

---
 sumpf/_data/_filters/_base/_filter.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index d7cece1..1f77eb7 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -151,12 +151,14 @@ class Filter:
         :returns: a tuple of channels, where each channel is a number, if ``frequencies``
                   is a number or an array, if ``frequencies`` is a sequence.
         """
-        if not numpy.shape(frequencies):    # create an array if frequencies is a scalar value
-            s = S(numpy.reshape(frequencies, (1, 1)))
-            return tuple(tf(s)[0, 0] for tf in self.__transfer_functions)
-        else:
-            s = S(frequencies)
-            return tuple(tf(s) for tf in self.__transfer_functions)
+        scalar = not numpy.shape(frequencies)
+        if scalar:  # create an array if frequencies is a scalar value
+            frequencies = numpy.reshape(frequencies, (1, 1))
+        channels = []
+        for tf in self.__transfer_functions:
+            s = S(frequencies)  # each channel needs its own instance, because it stores, if a transform makes the results for 0Hz invalid
+            channels.append(tf(s)[0, 0] if scalar else tf(s))
+        return tuple(channels)
 
     def __len__(self):
         """Operator overload for retrieving the filter's number of channels with
@@ -415,9 +417,9 @@ class Filter:
         :returns: a :class:`~sumpf.Spectrum` instance
         """
         frequencies = numpy.linspace(0.0, (length - 1) * resolution, length)
-        s = S(frequencies)
         channels = sumpf_internal.allocate_array(shape=(len(self.__transfer_functions), length), dtype=numpy.complex128)
         for tf, c in zip(self.__transfer_functions, channels):
+            s = S(frequencies)  # each channel needs its own instance, because it stores, if a transform makes the results for 0Hz invalid
             tf(s, out=c)
         return sumpf.Spectrum(channels=channels, resolution=resolution, labels=self.__labels)
 
-- 
2.43.0


From 57556eadfe19119415e24b095550cded5c3faa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 06/50] fix: allow passing the frequencies for sampling a bands
 filter as a list or tuple

---
 sumpf/_data/_filters/_base/_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 1f77eb7..d109b74 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -154,6 +154,8 @@ class Filter:
         scalar = not numpy.shape(frequencies)
         if scalar:  # create an array if frequencies is a scalar value
             frequencies = numpy.reshape(frequencies, (1, 1))
+        else:
+            frequencies = numpy.asarray(frequencies)
         channels = []
         for tf in self.__transfer_functions:
             s = S(frequencies)  # each channel needs its own instance, because it stores, if a transform makes the results for 0Hz invalid
-- 
2.43.0


From 3750b6f97b7e3c2b9bf4c7f3d83aed7c00bbd8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 07/50] fix: comparing bands with different numbers of
 supporting points

---
 sumpf/_data/_filters/_base/_terms/_primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index 4a194a5..a567bcc 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -512,8 +512,8 @@ class Bands(Term):
             return False
         elif (self.interpolation != other.interpolation or
               self.extrapolation != other.extrapolation or
-              numpy.not_equal(self.xs, other.xs).any() or
-              numpy.not_equal(self.ys, other.ys).any()):
+              not numpy.array_equal(self.xs, other.xs) or
+              not numpy.array_equal(self.ys, other.ys)):
             return False
         return super().__eq__(other)
 
-- 
2.43.0


From d89f6f8126d37e29b769f57004913e4d9b3040d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 08/50] fix: bands, that are interpolated or extrapolated with
 ones, are not zero for all frequencies

---
 sumpf/_data/_filters/_base/_terms/_primitive.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index a567bcc..59a3829 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -476,7 +476,11 @@ class Bands(Term):
 
         :returns: True, if the term evaluates to zero, False otherwise
         """
-        return len(self.xs) == 0 or (self.ys == 0.0).all()
+        if len(self.xs) == 0:
+            return True
+        elif sumpf_internal.Interpolations.ONE in (self.interpolation, self.extrapolation):
+            return False
+        return (self.ys == 0.0).all()
 
     def __repr__(self):
         """Operator overload for using the built-in function :func:`repr` to generate
-- 
2.43.0


From 17c54264a55223581a68077e8cb4ebc9dbaaad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 09/50] fix: the lowpass-to-highpass transform of a difference
 with a zero minuend was lost

---
 sumpf/_data/_filters/_base/_terms/_binary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_binary.py b/sumpf/_data/_filters/_base/_terms/_binary.py
index 92600f5..669c30e 100644
--- a/sumpf/_data/_filters/_base/_terms/_binary.py
+++ b/sumpf/_data/_filters/_base/_terms/_binary.py
@@ -165,7 +165,10 @@ class Difference(Term):
             else:
                 return minuend
         elif minuend.is_zero():
-            return -subtrahend
+            if transform:
+                return -subtrahend.invert_transform()
+            else:
+                return -subtrahend
         elif minuend == subtrahend:
             return Constant(0.0)
         else:
-- 
2.43.0


From 899a02b4b16c136c6f40c80ae465f156f4802418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 10/50] fix: adding a constant to an empty polynomial

---
 sumpf/_data/_filters/_base/_terms/_primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index 59a3829..e597b53 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -267,7 +267,7 @@ class Polynomial(Term):
                 coefficients[-1] += other.value
                 return Polynomial(coefficients=coefficients, transform=self.transform)
             else:
-                return -other
+                return other
         else:
             return super().__add__(other)
 
-- 
2.43.0


From b08de48998451b7705f519cf8bc66d4461e52ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 11/50] fix: loading npy files with Python 3.11 and newer

---
 sumpf/_internal/_persistence/_filter_readers.py   | 2 +-
 sumpf/_internal/_persistence/_signal_readers.py   | 2 +-
 sumpf/_internal/_persistence/_spectrum_readers.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 5b590cd..c1a58f3 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -298,7 +298,7 @@ class NumpyReader(Reader):
                 interpolations = tuple(data["interpolations"])
                 extrapolations = tuple(data["extrapolations"])
                 labels = tuple(data["labels"])
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):     # npy files cannot be opened with a context manager (this raises an AttributeError before and a TypeError since Python 3.11)
             array = numpy.load(path).transpose()
             frequencies = array[0].real
             channels = array[1:]
diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 58c925e..da458da 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -150,7 +150,7 @@ class NumpyReader(Reader):
         try:
             with numpy.load(path) as data:
                 return from_dict(data)
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):     # npy files cannot be opened with a context manager (this raises an AttributeError before and a TypeError since Python 3.11)
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
             return from_rows(time_column=array[0],
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 8f72e0b..8317b2c 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -177,7 +177,7 @@ class NumpyReader(Reader):
                 channels = allocate_array(shape=data["channels"].shape, dtype=numpy.complex128)
                 channels[:] = data["channels"]
                 return from_dict(channels, data)
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):     # npy files cannot be opened with a context manager (this raises an AttributeError before and a TypeError since Python 3.11)
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
             return from_rows(frequency_column=array[0].real,
-- 
2.43.0


From 9bed842a265d5f6c7c047633e8d1a612ae83365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 12/50] fix: the meta data of data sets, that are loaded from
 npz files, were NumPy arrays

---
 sumpf/_internal/_persistence/_filter_readers.py      |  2 +-
 sumpf/_internal/_persistence/_functions.py           | 12 +++++++++++-
 sumpf/_internal/_persistence/_signal_readers.py      |  3 ++-
 sumpf/_internal/_persistence/_spectrogram_readers.py |  3 ++-
 sumpf/_internal/_persistence/_spectrum_readers.py    |  3 ++-
 5 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index c1a58f3..d523de3 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -297,7 +297,7 @@ class NumpyReader(Reader):
                 channels = data["channels"].transpose()
                 interpolations = tuple(data["interpolations"])
                 extrapolations = tuple(data["extrapolations"])
-                labels = tuple(data["labels"])
+                labels = tuple(data["labels"].tolist())
         except (AttributeError, TypeError):     # npy files cannot be opened with a context manager (this raises an AttributeError before and a TypeError since Python 3.11)
             array = numpy.load(path).transpose()
             frequencies = array[0].real
diff --git a/sumpf/_internal/_persistence/_functions.py b/sumpf/_internal/_persistence/_functions.py
index 61e7404..437b91d 100644
--- a/sumpf/_internal/_persistence/_functions.py
+++ b/sumpf/_internal/_persistence/_functions.py
@@ -18,7 +18,7 @@
 
 import os
 
-__all__ = ("read_file", "get_writer")
+__all__ = ("read_file", "get_writer", "npz_to_dict")
 
 
 def read_file(path, readers, reader_base_class):  # noqa; pylint: disable=too-many-branches; this function is spaghetti code, but the sequence of read attempts is easy to follow
@@ -90,6 +90,16 @@ def read_file(path, readers, reader_base_class):  # noqa; pylint: disable=too-ma
     raise ValueError(f"failed to read file '{path}'") from exception
 
 
+def npz_to_dict(npz):
+    """Converts the content of an opened ``npz`` file to a dictionary, in which the
+    meta data is stored with Python's builtin types rather than as NumPy arrays.
+
+    :param npz: the object, that is returned by :func:`numpy.load`
+    :returns: a dictionary
+    """
+    return {key: npz[key] if key == "channels" else npz[key].tolist() for key in npz}
+
+
 def get_writer(file_format, writers, writer_base_class):
     """Returns a writer class for the given file format. This function mainly
     exists to catch ImportErrors, if a writer requires a missing library, and
diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index da458da..8bfe21e 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -26,6 +26,7 @@ import wave
 import numpy
 import sumpf
 from .._functions import allocate_array
+from ._functions import npz_to_dict
 
 __all__ = ("readers", "Reader")
 
@@ -149,7 +150,7 @@ class NumpyReader(Reader):
         """
         try:
             with numpy.load(path) as data:
-                return from_dict(data)
+                return from_dict(npz_to_dict(data))
         except (AttributeError, TypeError):     # npy files cannot be opened with a context manager (this raises an AttributeError before and a TypeError since Python 3.11)
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index a204bf7..9bd9795 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -21,6 +21,7 @@ import pickle
 import numpy
 import sumpf
 from .._functions import allocate_array
+from ._functions import npz_to_dict
 
 __all__ = ("readers", "Reader")
 
@@ -96,7 +97,7 @@ class NumpyReader(Reader):
         with numpy.load(path) as data:
             channels = allocate_array(shape=data["channels"].shape, dtype=numpy.complex128)
             channels[:] = data["channels"]
-            return from_dict(channels, data)
+            return from_dict(channels, npz_to_dict(data))
 
 
 class PickleReader(Reader):
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 8317b2c..42ed5de 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -23,6 +23,7 @@ import pickle
 import numpy
 import sumpf
 from .._functions import allocate_array
+from ._functions import npz_to_dict
 
 __all__ = ("readers", "Reader")
 
@@ -176,7 +177,7 @@ class NumpyReader(Reader):
             with numpy.load(path) as data:
                 channels = allocate_array(shape=data["channels"].shape, dtype=numpy.complex128)
                 channels[:] = data["channels"]
-                return from_dict(channels, data)
+                return from_dict(channels, npz_to_dict(data))
         except (AttributeError, TypeError):     # npy files cannot be opened with a context manager (this raises an AttributeError before and a TypeError since Python 3.11)
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
-- 
2.43.0


From dddbfc4acbd0d96c6f3a34ba8dd38f73403727c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 13/50] fix: reading an empty spectrogram from a JSON file
 created a two-dimensional channels array

---
 sumpf/_internal/_persistence/_spectrogram_readers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index 9bd9795..8906b12 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -74,13 +74,13 @@ class JsonReader(Reader):
                                 numpy.multiply(1j, c["imaginary"], out=channels[i])
                                 numpy.add(channels[i], c["real"], out=channels[i])
                         else:
-                            channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                            channels = numpy.empty(shape=(1, 1, 0), dtype=numpy.complex128)
                     else:
-                        channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                        channels = numpy.empty(shape=(1, 1, 0), dtype=numpy.complex128)
                 else:
-                    channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                    channels = numpy.empty(shape=(1, 1, 0), dtype=numpy.complex128)
             else:
-                channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                channels = numpy.empty(shape=(1, 1, 0), dtype=numpy.complex128)
             return from_dict(channels, data)
 
 
-- 
2.43.0


From 4db1b71701d8b5a8f5462d088747e6facea8aa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 14/50] fix: the end of a signal, that is not a multiple of the
 block size, was repeatedly played back and recorded through JACK

---
 sumpf/_blocks/_jack.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 2d461ec..20e0799 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -449,12 +449,12 @@ def on_process(frames, instance):
             for port, channel in zip(instance._client.inports, instance._channels):
                 channel[index:stop_index] = port.get_array()
         elif index < instance._input.length():
-            stop_index = instance._input.length() - index
+            remaining = instance._input.length() - index
             for port, channel in zip(instance._client.outports, channels):
-                port.get_array()[0:stop_index] = channel[index:]
-                port.get_array()[stop_index:] = 0.0
+                port.get_array()[0:remaining] = channel[index:]
+                port.get_array()[remaining:] = 0.0
             for port, channel in zip(instance._client.inports, instance._channels):
-                channel[index:] = port.get_array()[0:stop_index]
+                channel[index:] = port.get_array()[0:remaining]
         else:
             instance._event.set()
             if instance._auto_deactivate:  # pylint: disable=no-else-raise
-- 
2.43.0


From b18cda806b7e844fb3c587f96788e47ddd937873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 15/50] fix: the conversion of a JACK xrun's delay from
 microseconds to seconds

---
 sumpf/_blocks/_jack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 20e0799..3d0daa2 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -481,7 +481,7 @@ def on_xrun(delay: float, instance):
     old = instance._xruns.output()
     xrun = XRun(start=instance._index,
                 stop=instance._index + instance._client.blocksize,
-                delay=delay * 1e6)    # convert the microseconds to seconds
+                delay=delay * 1e-6)    # convert the microseconds to seconds
     instance._xruns.input((old[0] + 1, xrun))
 
 ##############################
-- 
2.43.0


From 27d73e96d0543a7bf2f852631ec4a210535b95d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 16/50] fix: concatenating data sets with different data types
 lost the fractional or imaginary parts of the samples

---
 sumpf/_blocks/_concatenate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sumpf/_blocks/_concatenate.py b/sumpf/_blocks/_concatenate.py
index e6da5c6..9e87c3f 100644
--- a/sumpf/_blocks/_concatenate.py
+++ b/sumpf/_blocks/_concatenate.py
@@ -17,6 +17,7 @@
 """Contains the :class:`~sumpf.Concatenate` class."""
 
 import connectors
+import numpy
 import sumpf
 import sumpf._internal as sumpf_internal
 
@@ -72,13 +73,14 @@ class Concatenate:
             # allocate an array for the concatenated channels and copy the first data set
             offset = min(i[0] for i in indices)
             length = max(i[1] for i in indices) - offset
+            dtype = numpy.result_type(*(i[2] for i in indices))
             start, stop, dataset_channels = indices[0]
             start -= offset
             stop -= offset
             if len(dataset_channels.shape) == 2:
                 signal = True
                 channels = sumpf_internal.allocate_array(shape=(number_of_channels, length),
-                                                         dtype=dataset_channels.dtype)
+                                                         dtype=dtype)
                 channels[0:len(dataset_channels), start:stop] = dataset_channels
                 if len(dataset_channels) < number_of_channels:
                     channels[len(dataset_channels):, start:stop] = 0.0
@@ -86,7 +88,7 @@ class Concatenate:
                 signal = False
                 number_of_frequencies = max(i[2].shape[1] for i in indices)
                 channels = sumpf_internal.allocate_array(shape=(number_of_channels, number_of_frequencies, length),
-                                                         dtype=dataset_channels.dtype)
+                                                         dtype=dtype)
                 l, f = dataset_channels.shape[0:2]
                 channels[0:l, 0:f, start:stop] = dataset_channels
                 if f < number_of_frequencies:
-- 
2.43.0


From 31309c7de90af052f8d2deaf12e8ead1b3cc15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 17/50] fix: saving signals, whose samples exceed the range of
 the integer format, with the standard library's wave and aifc modules

---
 .../_internal/_persistence/_signal_writers.py | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index b75f1ba..b5e45b6 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -264,10 +264,7 @@ class StandardLibraryWriter:
             while i + chunk_size <= signal.length():
                 for c in range(number_of_channels):
                     array[c:None:number_of_channels] = signal.channels()[c, i:i + chunk_size]
-                if not self.__signed:
-                    array += 1.0
-                array *= self.__factor
-                chunk = struct.pack(mask, *numpy.round(array).astype(int))
+                chunk = struct.pack(mask, *self.__quantize(array))
                 f.writeframes(chunk)
                 i += chunk_size
             remaining_samples = number_of_samples - i
@@ -280,12 +277,23 @@ class StandardLibraryWriter:
                     array = array[0:remaining_chunk_size]
                 for c in range(number_of_channels):
                     array[c:None:number_of_channels] = signal.channels()[c, i:]
-                if not self.__signed:
-                    array += 1.0
-                array *= self.__factor
-                chunk = struct.pack(mask, *numpy.round(array).astype(int))
+                chunk = struct.pack(mask, *self.__quantize(array))
                 f.writeframes(chunk)
 
+    def __quantize(self, array):
+        """Scales the given samples to the integers, that shall be written to the
+        file. Samples, that exceed the range of these integers, are clipped.
+
+        :param array: an array of float samples, which will be modified by this method
+        :returns: an array of integers
+        """
+        if not self.__signed:
+            array += 1.0
+        array *= self.__factor
+        minimum = -self.__factor if self.__signed else 0
+        numpy.clip(numpy.round(array), minimum, minimum + 2 * self.__factor - 1, out=array)
+        return array.astype(int)
+
 
 class WaveWriter(StandardLibraryWriter, Writer):
     """Saves integer wav files with the help of the :mod:`wave` module."""
-- 
2.43.0


From 3e42d095abb14217d3f8aae94265379ba0d65327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 18/50] fix: compressed aiff files were interpreted as
 uncompressed ones

---
 sumpf/_internal/_persistence/_signal_readers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 8bfe21e..bd90225 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -208,6 +208,8 @@ class StandardLibraryReader:
         path = str(path)  # the wave and aifc modules cannot deal with pathlib objects (at least not in Python 3.9)
         chunk_size = 2048
         with self.__module.open(path, mode="rb") as f:
+            if f.getcomptype() not in ("NONE", b"NONE"):
+                raise ValueError(f"cannot read files with a {f.getcompname()} compression")
             number_of_channels = f.getnchannels()
             number_of_samples = f.getnframes()
             sample_mask = self.__sample_width_mapping[f.getsampwidth()]
-- 
2.43.0


From 4c295f98cc4b5f7b5b04a69addac179ddfac036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 19/50] fix: reading tables with short lines, exponents after a
 separator or upper case exponents

---
 sumpf/_internal/_persistence/_filter_readers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index d523de3..c66dff1 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -195,7 +195,7 @@ class TableReader(Reader):
         :returns: a :class:`~sumpf.Filter` instance
         """
         # pylint: disable=too-many-locals,too-many-nested-blocks,too-many-branches; disable pylint's complexity warnings
-        unsigned = "(?:(?:\d+.?\d*e[+-]?\d+)|(?:\d+\.?\d*)|(?:\.\d+))"
+        unsigned = r"(?:(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)"
         real = f"(?:-?{unsigned})"
         complex_parentheses = f"(?:\({real} *[+-] *{unsigned}[jJiI])\)"
         complex_ = f"(?:{real}[+-]{unsigned}[jJiI])"
@@ -212,6 +212,8 @@ class TableReader(Reader):
                     if not (line[0].isdigit() or nan_mask.match(line)):
                         raise ValueError("The file does not seem to be a tabular representation of a Bands filter")
                     for i, (match, bands) in enumerate(itertools.zip_longest(mask.finditer(line), all_bands)):
+                        if match is None:   # the line has less columns than a previous one
+                            break
                         g, p, c, r, n = match.groups()[1:]  # find out, what kind of number (real, gnuplot, ...) is found by checking which group is not None
                         if i == 0:
                             if r is not None:
-- 
2.43.0


From 99bd825a48cbc3f1841fbd61267ccaa6027ddf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 20/50] fix: saving bands with integer frequencies or values in
 tables

---
 sumpf/_internal/_persistence/_filter_writers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_writers.py b/sumpf/_internal/_persistence/_filter_writers.py
index c9e9ae9..dec9530 100644
--- a/sumpf/_internal/_persistence/_filter_writers.py
+++ b/sumpf/_internal/_persistence/_filter_writers.py
@@ -19,6 +19,7 @@
 import csv
 import enum
 import json
+import numbers
 import pickle
 import numpy
 import sumpf._internal as sumpf_internal
@@ -221,7 +222,7 @@ class TextTabIWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -257,7 +258,7 @@ class TextTabJWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -293,7 +294,7 @@ class TextPipeIWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -329,7 +330,7 @@ class TextPipeJWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -366,7 +367,7 @@ class TextGnuplotWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "{nan, nan}"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             return f"{{{number.real!r},{number.imag!r}}}"
-- 
2.43.0


From 0e1bc3bb07fb073b19bc579d712f0fb601a2d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 21/50] fix: the string representations of instances of
 sub-classes could not be evaluated

---
 sumpf/_data/_filters/_base/_filter.py     | 2 +-
 sumpf/_data/_signals/_signal.py           | 2 +-
 sumpf/_data/_spectrograms/_spectrogram.py | 2 +-
 sumpf/_data/_spectrums/_spectrum.py       | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index d109b74..87d31d8 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -186,7 +186,7 @@ class Filter:
 
         :returns: a potentially very long string
         """
-        return (f"{self.__class__.__name__}(transfer_functions={self.__transfer_functions!r}, "
+        return (f"Filter(transfer_functions={self.__transfer_functions!r}, "
                 f"labels={self.__labels})")
 
     def __eq__(self, other):
diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 3e97a9f..87f78b2 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -142,7 +142,7 @@ class Signal(SampledData):
                                       separator=",",
                                       formatter={"all": repr},
                                       threshold=self._channels.size).replace("\n", "").replace(" ", "")
-        return (f"{self.__class__.__name__}(channels=array({channels}), "
+        return (f"Signal(channels=array({channels}), "
                 f"sampling_rate={self.__sampling_rate!r}, "
                 f"offset={self.__offset}, "
                 f"labels={self._labels})")
diff --git a/sumpf/_data/_spectrograms/_spectrogram.py b/sumpf/_data/_spectrograms/_spectrogram.py
index f8f9d07..d52c013 100644
--- a/sumpf/_data/_spectrograms/_spectrogram.py
+++ b/sumpf/_data/_spectrograms/_spectrogram.py
@@ -148,7 +148,7 @@ class Spectrogram(SampledData):
                                       separator=",",
                                       formatter={"all": repr},
                                       threshold=self._channels.size).replace("\n", "").replace(" ", "")
-        return (f"{self.__class__.__name__}(channels=array({channels}), "
+        return (f"Spectrogram(channels=array({channels}), "
                 f"resolution={self.__resolution}, "
                 f"sampling_rate={self.__sampling_rate!r}, "
                 f"offset={self.__offset}, "
diff --git a/sumpf/_data/_spectrums/_spectrum.py b/sumpf/_data/_spectrums/_spectrum.py
index 3f2af93..3977088 100644
--- a/sumpf/_data/_spectrums/_spectrum.py
+++ b/sumpf/_data/_spectrums/_spectrum.py
@@ -127,7 +127,7 @@ class Spectrum(SampledData):
                                       separator=",",
                                       formatter={"all": repr},
                                       threshold=self._channels.size).replace("\n", "").replace(" ", "")
-        return (f"{self.__class__.__name__}(channels=array({channels}), "
+        return (f"Spectrum(channels=array({channels}), "
                 f"resolution={self.__resolution!r}, "
                 f"labels={self._labels})")
 
-- 
2.43.0


From d1bcb46299267245b887e7123bc490bb14d34143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 22/50] fix: saving filters with complex coefficients or NumPy
 integers in JSON files

---
 sumpf/_internal/_persistence/_filter_readers.py | 17 ++++++++++++++++-
 sumpf/_internal/_persistence/_filter_writers.py | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index c66dff1..6a9d460 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -32,6 +32,19 @@ __all__ = ("readers", "Reader")
 readers = {}    # maps file extensions to reader instances, that can be used for future loading of a filter
 
 
+def value_from_json(value):
+    """A helper function for deserializing complex numbers, which are stored as a
+    dictionary with the real and the imaginary part in a JSON file.
+
+    :param value: a number or a dictionary
+    :returns: a number
+    """
+    if isinstance(value, collections.abc.Mapping):
+        return complex(value["real"], value["imaginary"])
+    else:
+        return value
+
+
 def term_from_dict(dictionary):
     """A helper function for deserializing sub-classes of :class:`~sumpf._data._filters._base._terms._base.Term`
     from a dictionary with the required parameters. This function operates recursively,
@@ -62,6 +75,8 @@ def term_from_dict(dictionary):
             if isinstance(parameter, collections.abc.Mapping):
                 if "type" in parameter:
                     parameters[name] = term_from_dict(parameter)
+                elif {"real", "imaginary"} == parameter.keys() and numpy.isscalar(parameter["real"]):
+                    parameters[name] = value_from_json(parameter)
                 elif {"real", "imaginary"} == parameter.keys():
                     real = parameter["real"]
                     imaginary = parameter["imaginary"]
@@ -78,7 +93,7 @@ def term_from_dict(dictionary):
                     if isinstance(p, collections.abc.Mapping) and "type" in p:
                         values.append(term_from_dict(p))
                     else:
-                        values.append(p)
+                        values.append(value_from_json(p))
                 parameters[name] = values
             else:
                 parameters[name] = parameter
diff --git a/sumpf/_internal/_persistence/_filter_writers.py b/sumpf/_internal/_persistence/_filter_writers.py
index dec9530..92851ae 100644
--- a/sumpf/_internal/_persistence/_filter_writers.py
+++ b/sumpf/_internal/_persistence/_filter_writers.py
@@ -440,7 +440,22 @@ class JsonWriter(Writer):
         dictionary = {"transfer_functions": [tf.as_dict() for tf in filter_.transfer_functions()],
                       "labels": filter_.labels()}
         with open(path, "w") as f:
-            json.dump(dictionary, f, indent=4)
+            json.dump(dictionary, f, indent=4, default=self.__number)
+
+    def __number(self, number):     # pylint: disable=no-self-use; this method is only required by this class
+        """Converts numbers, that are not supported by the :mod:`json` module (complex
+        numbers and NumPy's integers) to something, that can be stored in a JSON file.
+
+        :param number: the number
+        :returns: an integer, a float or a dictionary with the real and imaginary part of a complex number
+        """
+        if isinstance(number, numbers.Integral):
+            return int(number)
+        elif isinstance(number, numbers.Real):
+            return float(number)
+        elif isinstance(number, numbers.Complex):
+            return {"real": float(number.real), "imaginary": float(number.imag)}
+        raise TypeError(f"{number!r} cannot be stored in a JSON file")
 
 
 class NumpyNpyWriter(TableWriter, Writer):
-- 
2.43.0


From f71d07447587eccc71b571f81d5dff5ab9eb4438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 23/50] fix: concatenating data sets with single precision
 samples

---
 sumpf/_blocks/_concatenate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_blocks/_concatenate.py b/sumpf/_blocks/_concatenate.py
index 9e87c3f..5282530 100644
--- a/sumpf/_blocks/_concatenate.py
+++ b/sumpf/_blocks/_concatenate.py
@@ -73,7 +73,7 @@ class Concatenate:
             # allocate an array for the concatenated channels and copy the first data set
             offset = min(i[0] for i in indices)
             length = max(i[1] for i in indices) - offset
-            dtype = numpy.result_type(*(i[2] for i in indices))
+            dtype = numpy.result_type(numpy.float64, *(i[2] for i in indices))
             start, stop, dataset_channels = indices[0]
             start -= offset
             stop -= offset
-- 
2.43.0


From d41ca0fe19f4e85b82240a6f50d7868235a4cb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 24/50] fix: the block-wise Fourier transform of signals, that
 are shorter than the window, skipped the segment at the beginning of the
 signal

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 87f78b2..0ed7da0 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -473,7 +473,7 @@ class Signal(SampledData):
                     numpy.exp(compensation, out=compensated)
                     compensated *= spectrum
                     channels += compensated
-            i = 0
+            i = -step   # makes the padding start with the first segment, if the signal is shorter than the window
             for i in range(0, self._length - window_length + 1, step):
                 numpy.multiply(self._channels[:, i:window_length + i],
                                window_channels,
-- 
2.43.0


From 1fbbba7b8462f7b5a90d49dd2509f2fc7ac5ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 25/50] fix: the block-wise Fourier transform with a window,
 that has a different sampling rate than the signal

---
 sumpf/_data/_signals/_signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 0ed7da0..4d63d4e 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -444,14 +444,14 @@ class Signal(SampledData):
         window_length = window.length()
         length = window_length // 2 + 1
         if len(self._channels) == 0 or len(window) == 0 or window_length == 0:  # pylint: disable=len-as-condition; these are numpy arrays, that do not evaluate to False if empty
-            resolution = window.sampling_rate() / max(window_length, 1)
+            resolution = self.__sampling_rate / max(window_length, 1)
             channels = sumpf_internal.allocate_array(shape=(max(len(self._channels), len(window)), length),
                                                      dtype=numpy.complex128)
             channels[:, :] = 0.0
         else:
             window_channels = window.channels()
             overlap = sumpf_internal.index(overlap, window_length)
-            resolution = window.sampling_rate() / window_length
+            resolution = self.__sampling_rate / window_length
             channels = sumpf_internal.allocate_array(shape=(max(len(self._channels), len(window)), length),
                                                      dtype=numpy.complex128)
             channels[:, :] = 0.0
-- 
2.43.0


From c565b8a696c21245003ff8de300d5f16ae189ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 26/50] fix: labels of the convolution or correlation of a
 single channel signal with a multi-channel signal

---
 sumpf/_data/_signals/_signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 4d63d4e..e171cce 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -675,7 +675,7 @@ class Signal(SampledData):
                                                           other_offset=other.offset(),
                                                           function=sumpf_internal.convolution,
                                                           mode=mode)
-            labels = ("Convolution",) * len(self._channels)
+            labels = ("Convolution",) * len(channels)
         else:
             channels, offset = self.__convolve_with_array(other=other,
                                                           other_offset=0,
@@ -713,7 +713,7 @@ class Signal(SampledData):
                                                           other_offset=other.offset(),
                                                           function=sumpf_internal.correlation,
                                                           mode=mode)
-            labels = ("Correlation",) * len(self._channels)
+            labels = ("Correlation",) * len(channels)
         else:
             channels, offset = self.__convolve_with_array(other=other,
                                                           other_offset=0,
-- 
2.43.0


From fab7515283bd55f1cbda1e56a76f2697aa43ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 27/50] fix: the weight of the samples at the borders of the
 integration interval, when computing a time dependent level with a fractional
 number of samples

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index e171cce..84bd6c0 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -619,7 +619,7 @@ class Signal(SampledData):
             remainder = half_window_length - half_window_length_float
             window = numpy.full(1 + 2 * half_window_length, 1.0 / window_length)
             if remainder:
-                corner = remainder / window_length
+                corner = (1.0 - remainder) / window_length
                 window[0] = corner
                 window[-1] = corner
             square = numpy.square(self._channels)
-- 
2.43.0


From 90315ed5f4e560fc044545b09037d4f2d4f84644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 28/50] fix: uninitialized value in the time dependent level of
 signals, that are exactly as long as the integration interval

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 84bd6c0..994b9c2 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -643,7 +643,7 @@ class Signal(SampledData):
                     numpy.sqrt(numpy.convolve(s, window, mode="same")[a:b], out=c)
                 if not pad:
                     # compute a compensation for the start and the end of the level signal, where the convolution has assumed a zero padding
-                    correction = numpy.empty(self._length)
+                    correction = numpy.full(self._length, window_length)
                     correction[0:half_window_length] = numpy.linspace(1 + half_window_length_float,
                                                                       half_window_length + half_window_length_float,
                                                                       half_window_length)
-- 
2.43.0


From 470da2f6f0edc10e24174737f143899c5210b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 29/50] fix: the time dependent level was considered to be
 constant for integration intervals, that do not cover the whole signal for
 all samples

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 994b9c2..4ac4074 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -606,7 +606,7 @@ class Signal(SampledData):
         half_window_length_float = (window_length - 1.0) / 2.0
         half_window_length = int(math.ceil(half_window_length_float))
         channels = sumpf_internal.allocate_array(shape=self._channels.shape)
-        if 1 + half_window_length >= self._length:
+        if 1 + half_window_length_float >= self._length:
             # if half the integration time is longer than the whole signal, the level is constant over time
             if pad:
                 levels = numpy.linalg.norm(self._channels, axis=1) / math.sqrt(window_length)
-- 
2.43.0


From f925ffd8cc0692003a4cb96d63bf7a3effb45316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 30/50] fix: saving data sets with integer or single precision
 data in JSON files

---
 sumpf/_internal/_persistence/_functions.py       | 16 +++++++++++++++-
 sumpf/_internal/_persistence/_signal_writers.py  |  3 ++-
 .../_persistence/_spectrogram_writers.py         |  3 ++-
 .../_internal/_persistence/_spectrum_writers.py  |  3 ++-
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/sumpf/_internal/_persistence/_functions.py b/sumpf/_internal/_persistence/_functions.py
index 437b91d..5e03e0c 100644
--- a/sumpf/_internal/_persistence/_functions.py
+++ b/sumpf/_internal/_persistence/_functions.py
@@ -17,8 +17,9 @@
 """Contains helper functions and classes for the loading and saving data sets from/to files."""
 
 import os
+import numpy
 
-__all__ = ("read_file", "get_writer", "npz_to_dict")
+__all__ = ("read_file", "get_writer", "npz_to_dict", "number_to_json")
 
 
 def read_file(path, readers, reader_base_class):  # noqa; pylint: disable=too-many-branches; this function is spaghetti code, but the sequence of read attempts is easy to follow
@@ -100,6 +101,19 @@ def npz_to_dict(npz):
     return {key: npz[key] if key == "channels" else npz[key].tolist() for key in npz}
 
 
+def number_to_json(number):
+    """Converts NumPy's scalar types, that are not supported by the :mod:`json`
+    module, to Python's builtin types. This function can be passed as ``default``
+    parameter to :func:`json.dump`.
+
+    :param number: the number, that could not be serialized by the :mod:`json` module
+    :returns: an instance of one of Python's builtin types
+    """
+    if isinstance(number, numpy.generic):
+        return number.item()
+    raise TypeError(f"object of type {type(number)} cannot be stored in a JSON file")
+
+
 def get_writer(file_format, writers, writer_base_class):
     """Returns a writer class for the given file format. This function mainly
     exists to catch ImportErrors, if a writer requires a missing library, and
diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index b5e45b6..fa13313 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -26,6 +26,7 @@ import struct
 import wave
 import numpy
 from ._auto_writer import AutoWriter
+from ._functions import number_to_json
 
 __all__ = ("Formats", "Writer")
 
@@ -159,7 +160,7 @@ class JsonWriter(Writer):
         :param path: the path of the file, in which the signal shall be saved
         """
         with open(path, "w") as f:
-            json.dump(as_dict(signal), f, indent=4)
+            json.dump(as_dict(signal), f, indent=4, default=number_to_json)
 
 
 class NumpyNpyWriter(Writer):
diff --git a/sumpf/_internal/_persistence/_spectrogram_writers.py b/sumpf/_internal/_persistence/_spectrogram_writers.py
index d3ef853..ea9ef83 100644
--- a/sumpf/_internal/_persistence/_spectrogram_writers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_writers.py
@@ -21,6 +21,7 @@ import pickle
 import enum
 import numpy
 from ._auto_writer import AutoWriter
+from ._functions import number_to_json
 
 __all__ = ("Formats", "Writer")
 
@@ -102,7 +103,7 @@ class JsonWriter(Writer):
         :param path: the path of the file, in which the spectrogram shall be saved
         """
         with open(path, "w") as f:
-            json.dump(as_dict(spectrum), f, indent=4)
+            json.dump(as_dict(spectrum), f, indent=4, default=number_to_json)
 
 
 class NumpyNpzWriter(Writer):
diff --git a/sumpf/_internal/_persistence/_spectrum_writers.py b/sumpf/_internal/_persistence/_spectrum_writers.py
index 7587716..318cd3f 100644
--- a/sumpf/_internal/_persistence/_spectrum_writers.py
+++ b/sumpf/_internal/_persistence/_spectrum_writers.py
@@ -22,6 +22,7 @@ import pickle
 import enum
 import numpy
 from ._auto_writer import AutoWriter
+from ._functions import number_to_json
 
 __all__ = ("Formats", "Writer")
 
@@ -123,7 +124,7 @@ class JsonWriter(Writer):
         :param path: the path of the file, in which the spectrum shall be saved
         """
         with open(path, "w") as f:
-            json.dump(as_dict(spectrum), f, indent=4)
+            json.dump(as_dict(spectrum), f, indent=4, default=number_to_json)
 
 
 class NumpyNpyWriter(Writer):
-- 
2.43.0


From a39cba9297bde18ae6fb1aaf7f11bfe2c1736891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 31/50] fix: infinite imaginary parts in JSON files

---
 sumpf/_internal/_persistence/_spectrogram_readers.py | 4 ++--
 sumpf/_internal/_persistence/_spectrum_readers.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index 8906b12..1cfa3c4 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -71,8 +71,8 @@ class JsonReader(Reader):
                                                              number_of_samples),
                                                       dtype=numpy.complex128)
                             for i, c in enumerate(data["channels"]):
-                                numpy.multiply(1j, c["imaginary"], out=channels[i])
-                                numpy.add(channels[i], c["real"], out=channels[i])
+                                channels[i].real = c["real"]
+                                channels[i].imag = c["imaginary"]
                         else:
                             channels = numpy.empty(shape=(1, 1, 0), dtype=numpy.complex128)
                     else:
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 42ed5de..f894082 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -152,8 +152,8 @@ class JsonReader(Reader):
                     if number_of_samples:
                         channels = allocate_array(shape=(number_of_channels, number_of_samples), dtype=numpy.complex128)
                         for i, c in enumerate(data["channels"]):
-                            numpy.multiply(1j, c["imaginary"], out=channels[i])
-                            numpy.add(channels[i], c["real"], out=channels[i])
+                            channels[i].real = c["real"]
+                            channels[i].imag = c["imaginary"]
                     else:
                         channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
                 else:
-- 
2.43.0


From 32fae4a8b961ad4c3a74b3cf7d1ad5dd2d1a3909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 32/50] fix: saving signals with integer data in audio files

---
 sumpf/_internal/_persistence/_signal_writers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index fa13313..3a1e763 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -386,7 +386,7 @@ class SoundfileWriter(Writer):
         """
         import soundfile  # pylint: disable=import-outside-toplevel; having this as a top-level import would make all writers unavailable, if the soundfile library is not installed
         soundfile.write(file=path,
-                        data=signal.channels().transpose(),
+                        data=signal.channels().transpose().astype(numpy.float64),
                         samplerate=self.__sampling_rate_conversion(signal.sampling_rate()),
                         subtype=self.__subtype,
                         format=self.__format)
-- 
2.43.0


From 807559d9a8f92b076345097f5055c89585873aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 33/50] fix: single channel AIFF_INT8 files with an odd length
 were read with an additional sample

---
 sumpf/_internal/_persistence/_signal_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index bd90225..c63a3bb 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -255,7 +255,7 @@ class WaveReader(StandardLibraryReader, Reader):
 
 class AifcReader(StandardLibraryReader, Reader):
     """Loads integer aiff files with the help of the :mod:`aifc` module."""
-    extensions = (".wav",)
+    extensions = (".aiff", ".aifc", ".aif")
 
     def __init__(self):
         StandardLibraryReader.__init__(self,
-- 
2.43.0


From f428c032019c524c17e569017e1a907eb182ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 34/50] fix: crash, when saving samples outside of the range
 between -1.0 and 1.0 as u-law or a-law

---
 sumpf/_internal/_persistence/_signal_writers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index 3a1e763..8077fe1 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -385,8 +385,11 @@ class SoundfileWriter(Writer):
         :param path: the path of the file, in which the signal shall be saved
         """
         import soundfile  # pylint: disable=import-outside-toplevel; having this as a top-level import would make all writers unavailable, if the soundfile library is not installed
+        data = signal.channels().transpose().astype(numpy.float64)
+        if self.__subtype in ("ULAW", "ALAW"):  # libsndfile does not clip the samples in these formats, but accesses invalid memory
+            numpy.clip(data, -1.0, 1.0, out=data)
         soundfile.write(file=path,
-                        data=signal.channels().transpose().astype(numpy.float64),
+                        data=data,
                         samplerate=self.__sampling_rate_conversion(signal.sampling_rate()),
                         subtype=self.__subtype,
                         format=self.__format)
-- 
2.43.0


From 8874ba5009abb931bace9b928f908c180cca3032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 35/50] fix: arbitrary lines of text were loaded as empty data
 sets by the CSV readers

---
 sumpf/_internal/_persistence/_filter_readers.py   | 2 ++
 sumpf/_internal/_persistence/_signal_readers.py   | 2 ++
 sumpf/_internal/_persistence/_spectrum_readers.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 6a9d460..e62e51c 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -283,6 +283,8 @@ class CsvReader(Reader):
             # read the frequency samples
             for current_row in reader:
                 self.__process_row(bands, current_row)
+            if not any(bands) and first_row[0:1] != ["frequency"]:      # any line of text can be interpreted as a table's header
+                raise ValueError("the file does not contain any supporting points")
             # create the Filter instance
         return sumpf.Bands(bands=bands, labels=labels)
 
diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index c63a3bb..6a042b7 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -119,6 +119,8 @@ class CsvReader(Reader):
             for row in reader:
                 time_samples.append(float(row[0]))
                 rows.append([float(c) for c in row[1:]])
+            if not rows and first_row[0:1] != ["time"]:     # any line of text can be interpreted as a table's header
+                raise ValueError("the file does not contain any samples")
             return from_rows(time_column=time_samples,
                              data_rows=numpy.transpose(rows),
                              labels=labels)
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index f894082..342deb9 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -128,6 +128,8 @@ class CsvReader(Reader):
             for row in reader:
                 frequency_samples.append(float(row[0]))
                 rows.append([complex(c) for c in row[1:]])
+            if not rows and first_row[0:1] != ["frequency"]:    # any line of text can be interpreted as a table's header
+                raise ValueError("the file does not contain any samples")
             return from_rows(frequency_column=frequency_samples,
                              data_rows=numpy.transpose(rows),
                              labels=labels)
-- 
2.43.0


From 7a23a23a3d00ea90fc65305061cc862dd2ce4f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 36/50] fix: npz files with channels of a wrong dimensionality
 were loaded as malformed data sets

---
 sumpf/_internal/_persistence/_signal_readers.py      | 2 ++
 sumpf/_internal/_persistence/_spectrogram_readers.py | 2 ++
 sumpf/_internal/_persistence/_spectrum_readers.py    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 6a042b7..fb94b21 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -36,6 +36,8 @@ readers = {}    # maps file extensions to reader instances, that can be used for
 def from_dict(dictionary):
     """Deserializes a signal from a dictionary."""
     if "channels" in dictionary:
+        if numpy.ndim(dictionary["channels"]) != 2:
+            raise ValueError("the channels of a signal must be stored in a two-dimensional array")
         channels = allocate_array(shape=numpy.shape(dictionary["channels"]))
         channels[:, :] = dictionary["channels"]
     else:
diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index 1cfa3c4..d9a72ec 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -30,6 +30,8 @@ readers = {}    # maps file extensions to reader instances, that can be used for
 
 def from_dict(channels, dictionary):
     """Deserializes a spectrogram from a dictionary."""
+    if numpy.ndim(channels) != 3:
+        raise ValueError("the channels of a spectrogram must be stored in a three-dimensional array")
     return sumpf.Spectrogram(channels=channels,
                              resolution=dictionary.get("resolution", 1.0),
                              sampling_rate=dictionary.get("sampling_rate", 48000.0),
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 342deb9..216dc4c 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -32,6 +32,8 @@ readers = {}    # maps file extensions to reader instances, that can be used for
 
 def from_dict(channels, dictionary):
     """Deserializes a spectrum from a dictionary."""
+    if numpy.ndim(channels) != 2:
+        raise ValueError("the channels of a spectrum must be stored in a two-dimensional array")
     return sumpf.Spectrum(channels=channels,
                           resolution=dictionary.get("resolution", 1.0),
                           labels=dictionary.get("labels", ()))
-- 
2.43.0


From e0a5812c46136b08da5c5ada187b9de1f476e8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 37/50] fix: harmonic_impulse_response modified the given
 impulse response in place

---
 sumpf/_data/_signals/_sweep.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index d25717b..d233010 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -225,10 +225,12 @@ class BaseExponentialSweep(Sweep):
                 else:
                     channels = channels[:, 0:length]
         elif remaining_delay is not None:
+            new_channels = sumpf_internal.allocate_array(shape=channels.shape)
             apply_delay(channels=channels,
                         sampling_rate=sampling_rate,
                         delay=remaining_delay,
-                        out=channels)
+                        out=new_channels)
+            channels = new_channels
         # return the impulse response of the harmonic
         h = sumpf_internal.counting_number(harmonic)
         return Signal(channels=channels,
-- 
2.43.0


From 98b534ea134b66a69b5c93671c1f57ddca3eae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 38/50] fix: the sub-sample delay of harmonic impulse responses
 with an odd length

---
 sumpf/_data/_signals/_sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index d233010..21ba680 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -72,7 +72,7 @@ def apply_delay(channels, sampling_rate, delay, out):
     """
     if channels.size:
         spectrum = numpy.fft.rfft(channels)
-        f = numpy.linspace(0.0, sampling_rate / 2.0, spectrum.shape[-1])
+        f = numpy.fft.rfftfreq(channels.shape[-1], d=1.0 / sampling_rate)
         spectrum *= numpy.exp(2j * math.pi * f * delay)
         signal = numpy.fft.irfft(spectrum, n=channels.shape[-1])
         out[:, 0:signal.shape[1]] = signal[:, 0:out.shape[1]]
-- 
2.43.0


From a1c586fa8f5a8a15536244cc4ac280625d53532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 39/50] fix: cropping of harmonic impulse responses, that are
 not longer than the number of channels

---
 sumpf/_data/_signals/_sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index 21ba680..d2979dd 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -214,7 +214,7 @@ class BaseExponentialSweep(Sweep):
                                 delay=remaining_delay,
                                 out=new_channels)
                 channels = new_channels
-            elif harmonic_length > channel_count:
+            else:
                 if remaining_delay is not None:
                     new_channels = sumpf_internal.allocate_array(shape=(channel_count, length))
                     apply_delay(channels=channels,
-- 
2.43.0


From aea218a727534fa0e9e5abe1b3ea2629741cb94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 40/50] fix: crash, when creating a maximum length sequence
 with a length of less than two samples

---
 sumpf/_data/_signals/_mls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_mls.py b/sumpf/_data/_signals/_mls.py
index 92fceec..aa0c0ab 100644
--- a/sumpf/_data/_signals/_mls.py
+++ b/sumpf/_data/_signals/_mls.py
@@ -57,7 +57,7 @@ class MaximumLengthSequence(Signal):
                 bits = 16
             length = 2 ** bits - 1
         elif bits is None:
-            bits = int(math.ceil(math.log2(length + 1)))
+            bits = max(2, int(math.ceil(math.log2(length + 1))))
         random = numpy.random.default_rng(seed)
         state = random.choice((False, True), size=bits)
         if True not in state:
-- 
2.43.0


From 4cdecfcdd46e59e55f0f32d68bc921d24869393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 41/50] fix: the last block of a signal was played back
 repeatedly through JACK

---
 sumpf/_blocks/_jack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 3d0daa2..cc73e69 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -456,6 +456,8 @@ def on_process(frames, instance):
             for port, channel in zip(instance._client.inports, instance._channels):
                 channel[index:] = port.get_array()[0:remaining]
         else:
+            for port in instance._client.outports:  # the buffers of the ports still contain the last block of the signal
+                port.get_array()[:] = 0.0
             instance._event.set()
             if instance._auto_deactivate:  # pylint: disable=no-else-raise
                 instance._store_connections()
-- 
2.43.0


From 01bcbb3561de5e9781a4f12c0a0d59f48b34a04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 42/50] fix: the offset and labels of a JACK recording, that is
 retrieved after changing the input signal or the ports

---
 sumpf/_blocks/_jack.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index cc73e69..2d28a97 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -84,6 +84,8 @@ class Jack:
         self._auto_deactivate = auto_deactivate
         self.__connections = []
         self._channels = numpy.empty(shape=(1, 0))
+        self._offset = 0
+        self._labels = ()
         self._index = 0
         self._event = threading.Event()
         self._event.set()
@@ -133,6 +135,8 @@ class Jack:
         """
         self.activate()
         self._channels = sumpf_internal.allocate_array(shape=(len(self._client.inports), self._input.length()))
+        self._offset = self._input.offset()
+        self._labels = [p.shortname for p in self._client.inports]
         self._index = 0
         self._event.clear()
         return self
@@ -161,8 +165,8 @@ class Jack:
             time.sleep(1.1 * self._client.blocksize / self._client.samplerate)  # wait for one buffer length to avoid xruns during the last call of the process-callback
         return sumpf.Signal(channels=self._channels,
                             sampling_rate=self._sampling_rate.output(),
-                            offset=self._input.offset(),
-                            labels=[p.shortname for p in self._client.inports])
+                            offset=self._offset,
+                            labels=self._labels)
 
     ############################
     # connecting of JACK ports #
-- 
2.43.0


From 1f5c65dc857e676a43717fa46bd567ebf16f440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 43/50] fix: IndexError in Jack, when the new input signal has
 less channels than those, that have been connected

---
 sumpf/_blocks/_jack.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 2d28a97..827d140 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -381,6 +381,7 @@ class Jack:
             self._client.outports.clear()
             for label in labels:
                 self._client.outports.register(label)
+            self.__connections = [(o, i) for o, i in self.__connections if not isinstance(o, int) or o < len(labels)]   # remove connections of channels, that no longer exist
             try:
                 for c in self.__connections:
                     self.__connect(*c)
-- 
2.43.0


From d116ab005621fb6b576c86c4f924ca54f32cee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 44/50] fix: subtracting a filter from or dividing by a filter
 is refused for operands, which are no numbers

---
 sumpf/_data/_filters/_base/_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 87d31d8..492a7c0 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -303,6 +303,8 @@ class Filter:
 
     def __rsub__(self, other):
         """Right hand side operator overload for subtracting this from a number."""
+        if not isinstance(other, (int, float, complex, numpy.number)):
+            return NotImplemented
         number = terms.Constant(other)
         return Filter(transfer_functions=tuple(number - tf for tf in self.__transfer_functions),
                       labels=self.__labels)
@@ -371,6 +373,8 @@ class Filter:
 
     def __rtruediv__(self, other):
         """Right hand side operator overload for dividing a number by this."""
+        if not isinstance(other, (int, float, complex, numpy.number)):
+            return NotImplemented
         number = terms.Constant(other)
         return Filter(transfer_functions=tuple(number / tf for tf in self.__transfer_functions),
                       labels=self.__labels)
-- 
2.43.0


From a807fab32431caf642b3c0a6c866db813529e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 45/50] fix: merging data sets of different types raises an
 error instead of mixing their channels

---
 sumpf/_blocks/_merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sumpf/_blocks/_merge.py b/sumpf/_blocks/_merge.py
index bc194f0..1250395 100644
--- a/sumpf/_blocks/_merge.py
+++ b/sumpf/_blocks/_merge.py
@@ -66,6 +66,9 @@ class Merge:
             return next(iter(self.__data.values()))  # simply return the first and only data set
         else:
             first = next(iter(self.__data.values()))
+            for data_type in (sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram, sumpf.Filter):
+                if isinstance(first, data_type) and not all(isinstance(d, data_type) for d in self.__data.values()):
+                    raise ValueError("Cannot merge data sets of different types")
             number_of_channels = sum(len(s) for s in self.__data.values())
             labels = [""] * number_of_channels
             if isinstance(first, sumpf.Signal):
-- 
2.43.0


From dbbecb09d086b56ea6f48b7dec9c6ddf0526687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 46/50] fix: concatenating signals and spectrograms raises an
 error instead of mixing their channels

---
 sumpf/_blocks/_concatenate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sumpf/_blocks/_concatenate.py b/sumpf/_blocks/_concatenate.py
index 5282530..7c0e6bc 100644
--- a/sumpf/_blocks/_concatenate.py
+++ b/sumpf/_blocks/_concatenate.py
@@ -60,6 +60,9 @@ class Concatenate:
             return next(iter(self.__data.values()))  # simply return the first and only data set
         else:
             first = next(iter(self.__data.values()))
+            for data_type in (sumpf.Signal, sumpf.Spectrogram):
+                if isinstance(first, data_type) and not all(isinstance(d, data_type) for d in self.__data.values()):
+                    raise ValueError("Cannot concatenate data sets of different types")
             # find the start and stop samples of the data sets
             index = 0
             indices = []
-- 
2.43.0


From 83f1df52e66a8b925fde12005625ba82e87f55a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:23 +0000
Subject: [PATCH 47/50] fix: the level over time and the energy decay curve of
 integer samples do not overflow

---
 sumpf/_data/_signals/_energy_decay.py | 2 +-
 sumpf/_data/_signals/_signal.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_signals/_energy_decay.py b/sumpf/_data/_signals/_energy_decay.py
index e4bdf9b..303c9dc 100644
--- a/sumpf/_data/_signals/_energy_decay.py
+++ b/sumpf/_data/_signals/_energy_decay.py
@@ -49,7 +49,7 @@ class EnergyDecayCurve(Signal):
                                  which this energy decay curve shall be computed.
         """
         channels = sumpf_internal.allocate_array(shape=impulse_response.shape())
-        numpy.square(impulse_response.channels(), out=channels)
+        numpy.square(impulse_response.channels(), out=channels, dtype=numpy.float64)
         numpy.cumsum(channels[:, ::-1], axis=1, out=channels[:, ::-1])
         Signal.__init__(self,
                         channels=channels,
diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 4ac4074..7f031e2 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -622,7 +622,7 @@ class Signal(SampledData):
                 corner = (1.0 - remainder) / window_length
                 window[0] = corner
                 window[-1] = corner
-            square = numpy.square(self._channels)
+            square = numpy.square(self._channels, dtype=numpy.float64)
             if len(window) < self._length:
                 # compute the levels by convolving the squared signal with the window
                 for s, c in zip(square, channels):
-- 
2.43.0


From cca65e7b10490ba913e75fbf2870770b43d13e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 48/50] fix: convolutions and correlations of integer samples
 do not overflow

---
 sumpf/_data/_signals/_signal.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 7f031e2..b045385 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -982,20 +982,24 @@ class Signal(SampledData):
         shape = numpy.shape(other)
         if len(shape) == 0:     # pylint: disable=len-as-condition; this is more consistent, since the length is compared to one below
             return self.__convolve_with_scalar(other)
-        elif len(shape) == 1:
-            return function[mode].with_vector(matrix=self._channels,
+        # the range of integer data types is too small for the sums of the products of the samples
+        channels = numpy.asarray(self._channels, dtype=numpy.result_type(self._channels, numpy.float64))
+        other = numpy.asarray(other)
+        other = numpy.asarray(other, dtype=numpy.result_type(other, numpy.float64))
+        if len(shape) == 1:
+            return function[mode].with_vector(matrix=channels,
                                               vector=other,
                                               offsets=(self.__offset, other_offset))
         elif len(other) == 1:
-            return function[mode].with_vector(matrix=self._channels,
+            return function[mode].with_vector(matrix=channels,
                                               vector=other[0],
                                               offsets=(self.__offset, other_offset))
         elif len(self) == 1:
-            return function[mode].with_vector2(vector=self._channels[0],
+            return function[mode].with_vector2(vector=channels[0],
                                                matrix=other,
                                                offsets=(self.__offset, other_offset))
         else:
-            return function[mode].with_matrix(a=self._channels,
+            return function[mode].with_matrix(a=channels,
                                               b=other,
                                               offsets=(self.__offset, other_offset))
 
-- 
2.43.0


From ed9370a0bb68b22e27002199b881533190f1b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:30 +0000
Subject: [PATCH 49/50] fix: the level of a spectrum with integer values can be
 computed

---
 sumpf/_data/_spectrums/_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_spectrums/_spectrum.py b/sumpf/_data/_spectrums/_spectrum.py
index 3977088..2a846d1 100644
--- a/sumpf/_data/_spectrums/_spectrum.py
+++ b/sumpf/_data/_spectrums/_spectrum.py
@@ -378,7 +378,7 @@ class Spectrum(SampledData):
         """
         signal_length = max(1, (self._length - 1) * 2)
         abs_ = numpy.abs(self._channels)
-        square = numpy.square(abs_, out=abs_)
+        square = numpy.square(abs_, dtype=numpy.float64)
         square[:, 1:-1] *= 2.0   # all bins, except for the first and the last one, have a counterpart at the negative frequencies
         if single_value:
             sum_ = math.fsum(math.fsum(c) for c in square)
-- 
2.43.0


From 303c93c7a0d1953caec3d929bdb1a4b951ea4a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 50/50] fix: loading a bands filter from a JSON file keeps the
 sign of zeros and infinities in the imaginary part

---
 sumpf/_internal/_persistence/_filter_readers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index e62e51c..f4f3270 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -81,9 +81,8 @@ def term_from_dict(dictionary):
                     real = parameter["real"]
                     imaginary = parameter["imaginary"]
                     a = numpy.empty(shape=numpy.shape(real), dtype=numpy.complex128)
-                    a[:] = imaginary
-                    a *= 1j
-                    a += real
+                    a.real = real
+                    a.imag = imaginary
                     parameters[name] = a
                 else:
                     parameters[name] = parameter
-- 
2.43.0

