"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

D = "sumpf/_data/"
SIG = D + "_signals/_signal.py"
SPC = D + "_spectrums/_spectrum.py"
SGR = D + "_spectrograms/_spectrogram.py"
SD = D + "_sampled_data.py"
FIL = D + "_filters/_base/_filter.py"
PR = D + "_filters/_base/_terms/_primitive.py"
BI = D + "_filters/_base/_terms/_binary.py"
UN = D + "_filters/_base/_terms/_unary.py"
PER = "sumpf/_internal/_persistence/"

p("P01", "Signal arithmetic is sample-wise on the common time axis",
  "Adding, subtracting, multiplying, dividing, taking the modulo or the power of two signals combines samples that share the same point in time (respecting each signal's offset), broadcasts a single-channel operand to every channel of the other, and spans the union of both time ranges: where only the left operand has data that data is kept, where only the right operand has data the result is that data (negated for a difference, its reciprocal for a quotient), and where neither has data it is zero. "
  "With a number, list or array on either side of the operator the operation is applied sample by sample as in numpy, keeping sampling rate, offset and labels. "
  "Results of signal-signal operations are labelled Sum, Difference, Product, Quotient, Modulo or Power for every channel; the operands are left unchanged.",
  ["inputs", "programs"], "every pair of signals (channel counts, lengths, offsets of either sign, overlapping, touching or disjoint, missing channels), every operator and every kind of scalar/array operand on either side",
  "the tests evaluate a handful of fixed shapes and offsets per operator; the alignment arithmetic has a different code path per combination of relative offset, length and channel count",
  [SIG, SD], [("operator overloads", SD + ":__add__..__rpow__"), ("time alignment and broadcasting", SIG + ":_algebra_function and helpers")])
p("P02", "Spectrum arithmetic is bin-wise with documented broadcasting",
  "Sums, differences, products, quotients and powers of two spectrums of equal length combine equal bins and broadcast a single-channel operand to every channel of the other; channels that only one operand has are kept (negated or inverted if they come from the right operand of a difference or quotient), and the result carries the operation's name as label for every channel and the left operand's resolution. "
  "Numbers and arrays on either side act bin-wise as in numpy and keep the labels. "
  "The absolute, negative, inverse and conjugate are the bin-wise magnitude, negation, reciprocal and complex conjugate with resolution and labels preserved; operands stay unchanged.",
  ["inputs", "programs"], "every pair of spectrums of differing channel counts, every length, every operator, scalar and array operands on either side",
  "tests fix two or three shapes per operator", [SPC, SD], [("bin alignment and broadcasting", SPC + ":_algebra_function and helpers"), ("operator overloads", SD)])
p("P03", "Spectrogram arithmetic is bin-wise on the common time axis",
  "Sums, differences, products, quotients and powers of two spectrograms combine equal frequency bins at the same point in time (respecting each spectrogram's offset), broadcast a single-channel operand and keep data that exists in only one operand (negated or inverted for the right operand of a difference or quotient), zero where neither has data. "
  "A signal combined with a spectrogram (in either order) acts likewise on every frequency bin of the same point in time, a spectrum with as many bins acts on every point in time, and numbers and arrays act as in numpy; results of operations between data objects carry the operation's name as label, the spectrogram's resolution and sampling rate, and operands stay unchanged. "
  "The absolute, negative and conjugate are the bin-wise magnitude, negation and complex conjugate with resolution, sampling rate, offset and labels preserved.",
  ["inputs", "programs"], "every pair of spectrograms of differing channel counts, numbers of bins, lengths and offsets, every operator, scalar and array operands",
  "tests fix two or three shapes per operator", [SGR, SD], [("alignment and broadcasting in two dimensions", SGR + ":_algebra_function and helpers")])
p("P04", "Indexing selects exactly the addressed channels, bins and samples",
  "Indexing a signal, spectrum, spectrogram or filter with integers, floats between -1 and 1 (scaled to the axis), slices of either or tuples of these returns the same kind of object holding exactly the addressed channels and samples (an integer keeps its axis with length one, negative indices count from the end, slices behave as in numpy), with the matching labels. "
  "For forward time slices the offset of the result is the original offset plus the index of the first selected sample, so that every retained sample keeps its point in time; sampling rate and resolution are unchanged.",
  ["inputs"], "every shape and every combination of int/float/slice keys, negative and out-of-range bounds, steps",
  "tests try a few keys on one object; the corner cases are negative, out-of-range and fractional indices in combination with offsets",
  [SIG, SPC, SGR, FIL, "sumpf/_internal/_indexing.py"], [("key normalisation", "sumpf/_internal/_indexing.py"), ("offset bookkeeping", SIG + ":__getitem__, " + SGR + ":__getitem__")])
p("P05", "Shifting, padding, reversing and sign operations move samples exactly",
  "Shifting by n in offset mode only adds n to the offset (None resets it to zero); in crop and cycle mode it moves every sample n places later (earlier for negative n) while keeping shape and offset, filling with zeros or wrapping around (for shifts of at most the length), respectively; in pad mode it prepends n zeros (or appends -n zeros for negative n), so that no sample is lost. "
  "Padding a signal, spectrum or spectrogram to a length keeps the leading samples and appends the given value or crops; reversing mirrors the samples about time zero (for an offset o and length L: the result's offset is L-1-o), only changes the order of the samples and restores the signal when done twice; abs and negation act sample-wise. "
  "None of these change sampling rate, labels or the original object.",
  ["inputs"], "every shape, offset, shift distance and mode, target length and fill value",
  "tests use one signal and a few distances", [SIG, SPC, SGR], [("shift/pad/reversed", SIG + ":shift, pad, __reversed__, __abs__, __neg__"), ("pad", SPC + ":pad, " + SGR + ":pad")])
p("P06", "The Fourier transform is the DFT on the true time axis and is invertible",
  "The Fourier transform of a signal has one bin more than half its length (rounded down), a resolution of sampling rate over length, the same labels, and each bin equals the sum of the samples times exp(-2*pi*i*f*t), where t is the sample's time including the offset. "
  "Transforming a spectrum back gives a signal of even length 2*(bins-1) with a sampling rate of resolution times that length, such that signal to spectrum to signal is the identity for even-length signals without offset. "
  "The transform is linear and acts on each channel independently, and empty or zero-length data are handled without errors.",
  ["inputs"], "every real signal (channels, even and odd lengths, offsets, sampling rates) and every spectrum",
  "tests use one or two lengths and offsets; odd lengths and offset phases are sampled once", [SIG, SPC], [("full transform with offset phase", SIG + ":fourier_transform"), ("inverse", SPC + ":inverse_fourier_transform")])
p("P07", "Block-wise and short-time Fourier transforms equal windowed DFT sums",
  "The short-time Fourier transform splits a signal into segments of the window's length that start window length minus overlap apart (with padding, segments are centred on multiples of the step starting at the first sample, otherwise only full segments count), and each segment's bins are the DFT of window times signal divided by the sum of the window; resolution is sampling rate over window length, the sampling rate is divided by the step, and the signal's offset appears as the rounded number of steps plus a phase term for the remainder. "
  "The block-wise Fourier transform is the sum of the windowed segments' transforms on the true time axis, scaled to compensate for window and overlap. "
  "Windows may be given as length (Hann, or rectangular without overlap), array, sequence or multi-channel signal, overlap as integer, fraction or negative number.",
  ["inputs", "configurations"], "every signal, window length/shape, overlap and padding option, offset",
  "tests compare with scipy for two or three settings and never vary offset remainder, window kinds and overlap together", [SIG, "sumpf/_internal/_functions.py"], [("block-wise transform", SIG + ":fourier_transform(window=...)"), ("STFT", SIG + ":short_time_fourier_transform"), ("window and overlap handling", "sumpf/_internal/_functions.py")])
p("P08", "Inverse short-time Fourier transform reconstructs the signal",
  "Transforming a signal with a window whose overlapped squares never vanish and back with the same window, overlap and padding reproduces the signal's samples at their original points in time (followed only by padding), with the original sampling rate and labels, for any channel count and any offset that is a multiple of the step between the segments; the inverse of an arbitrary spectrogram is the window-weighted overlap-add of its segments. "
  "This holds whichever way the same window or overlap is expressed (length, array, signal, integer, fraction or negative overlap).",
  ["inputs", "configurations"], "every signal longer than the window, every window/overlap satisfying the non-zero overlap-add condition, offsets",
  "tests round-trip one or two fixed configurations", [SGR, SIG], [("ISTFT", SGR + ":inverse_short_time_fourier_transform"), ("STFT", SIG + ":short_time_fourier_transform")])
p("P09", "Convolution and correlation agree with their definitions in every mode",
  "Convolving (or correlating) a signal with a signal, a vector, a matrix or a number gives per channel pair the values of the mathematical definition restricted as full, same or valid mode demand, linear via spectrum-padded mode and circular over the common padded length via spectrum mode; a single channel on either side pairs with every channel of the other. "
  "For signals the resulting offset places every result value at the sum of the operands' times (difference for correlation), so the result as a function of time does not depend on how data and offset share a delay. "
  "Sampling rate is kept and the labels name the operation or, for arrays and numbers, are those of the signal.",
  ["inputs", "configurations"], "every pair of shapes, lengths in either order, offsets, modes, operand kinds",
  "tests check fixed signals; length order, parity, channel pairing and offset interact in different code for every mode", ["sumpf/_internal/_convolution.py", SIG], [("modes", "sumpf/_internal/_convolution.py"), ("dispatch", SIG + ":convolve, correlate")])
p("P10", "Inverting a signal yields its convolutional inverse",
  "For a signal whose transform has no zeros, the inverse operator returns a signal of the same shape, sampling rate and labels and with negated offset whose circular convolution (over the signal's length) with the original is a unit impulse at time zero, so that the product of both Fourier transforms is one at every frequency. "
  "Inverting an even-length signal twice gives back the original.",
  ["inputs"], "every signal with well-conditioned spectrum, offsets, channel counts, even and odd lengths", "the tests invert one sweep", [SIG], [("inverse", SIG + ":__invert__")])
p("P11", "Levels and statistics equal their mathematical definitions",
  "Level, mean, standard deviation, variance, skewness and kurtosis of a signal equal their textbook values per channel or over all samples; the level of a spectrum equals the level of the corresponding even-length time signal (Parseval) up to the documented scaling. "
  "The level over time at each sample is the root of the mean square over an interval of the integration time centred on it, with the edges either treated as zeros or excluded from the average. "
  "An energy decay curve is the backward-integrated squared impulse response, evaluated as documented.",
  ["inputs"], "every signal and spectrum, integration time relative to length, padding option", "tests use periodic signals and a few integration times; three separate code paths depend on integration time against length", [SIG, SPC, D + "_signals/_energy_decay.py"], [("statistics", SIG + ":level..kurtosis"), ("level over time", SIG + ":level_vs_time"), ("spectrum level", SPC + ":level"), ("energy decay", D + "_signals/_energy_decay.py")])
p("P12", "Data objects are immutable values: equality, hash, repr, isolation",
  "Two data objects are equal exactly if all their data, metadata and labels are equal and they are of the same kind; equal signals, spectrums or spectrograms have equal hashes, inequality is the negation of equality, and comparing to anything else is False without an error. "
  "Evaluating the representation of a signal, spectrum or spectrogram gives an equal object, that of a filter gives a filter with the same labels and the same response. "
  "No operation or query modifies its operands or arguments; labels are completed with empty strings or cropped to the number of channels.",
  ["inputs", "programs"], "every object kind and content (including infinities, denormals, empty data, odd labels), every public operation", "tests check a single object of each kind", [SD, SIG, SPC, SGR, FIL], [("equality/hash/repr", SD), ("label handling", "sumpf/_internal/_functions.py:sanitize_labels")])
p("P13", "Filter arithmetic is pointwise arithmetic of transfer functions",
  "For every filter built from constants, polynomials, exponentials, absolute values, bands, transformed terms and further filters with +, -, *, /, negation, inversion and absolute, the frequency response at any frequency greater than zero equals the same arithmetic applied to the component responses (polynomials in s = 2*pi*i*f, or in the low-pass-to-high-pass transformed variable), including single-channel broadcasting and numeric operands on either side; where two bands with the same supporting frequencies are combined or a bands term is negated, inverted or its absolute is taken, this holds at the supporting frequencies. "
  "Filter-filter results have as many channels as the operand with more channels and are labelled with the operation's name, results with numbers keep the labels; no operation modifies its operands. "
  "Algebraic simplification of terms never changes the value.",
  ["inputs", "programs"], "every expression tree over the public terms and filters, frequencies, operand types", "tests check simplifications on single examples; each term pair has its own simplification rule and they compose", [FIL, PR, BI, UN], [("channel-wise operators", FIL), ("simplifying factories", BI), ("primitive arithmetic", PR), ("unary terms", UN)])
p("P14", "Applying filters to data multiplies with the filter's response",
  "Calling a filter with a frequency or a sequence of frequencies gives for every channel the response at those frequencies irrespective of the other channels; its spectrum with given resolution and length is that response at the multiples of the resolution. "
  "Multiplying a filter with a spectrum or spectrogram multiplies each bin with the response at the bin's frequency; multiplying it with a signal is the same as multiplying the signal's Fourier transform with the response and transforming back (so that an offset becomes part of the phase); both with single-channel broadcasting in both directions and in either operand order. "
  "Resolution, sampling rate and length of spectrums and spectrograms and a spectrogram's offset are preserved, as are length and sampling rate of signals with an even length; the operands are not modified.",
  ["inputs", "programs"], "every filter (including multi-channel mixes of transformed and untransformed terms), every data kind and shape, operand order", "tests apply one or two filters to one signal", [FIL, D + "_filters/_base/_s.py", SIG, SPC, SGR], [("evaluation", FIL + ":__call__, spectrum"), ("shared frequency variable", D + "_filters/_base/_s.py")])
p("P15", "IIR filter classes match the analog prototypes they name",
  "Butterworth, Bessel, Chebyshev type 1 and type 2 low- and high-pass filters of any supported order have the magnitude and phase response of the analog design (as scipy's analog prototypes give it, up to normalisation documented for Bessel), with the documented value at the cutoff frequency, the documented ripple bounds in pass- or stop band, and high-pass response at f equal to low-pass response at cutoff squared over f (conjugated). "
  "Their direct spectrums, parameters and repr agree with that response.",
  ["inputs", "configurations"], "every order, cutoff frequency, ripple, pass direction, frequency", "tests compare fixed orders and frequencies", [D + "_filters/_butterworth.py", D + "_filters/_bessel.py", D + "_filters/_chebyshev.py", D + "_filters/_base/_iir.py"], [("coefficients", D + "_filters/_butterworth.py, _bessel.py, _chebyshev.py"), ("transform", D + "_filters/_base/_s.py")])
p("P16", "Weighting, derivative and delay filters have their standard responses",
  "The A, B, C, D and unweighted filters reproduce the standardised analog weighting curves at every frequency, with 0 dB at 1 kHz. "
  "The derivative filter's response is the angular frequency variable s = 2*pi*i*f, so that applying it n times corresponds to the power s**n; the delay filter has unit magnitude and a phase of -2*pi*f*delay, so delays add up and a delay by whole samples equals a cyclic shift.",
  ["inputs"], "every frequency, delay and number of applications", "tests compare a table of frequencies in dB with coarse tolerance", [D + "_filters/_weighting.py", D + "_filters/_derivative.py", D + "_filters/_delay.py"], [("poles and gains", D + "_filters/_weighting.py"), ("derivative", D + "_filters/_derivative.py"), ("delay", D + "_filters/_delay.py")])
p("P17", "Bands filters interpolate and extrapolate exactly as specified",
  "A bands filter returns the given value at every supporting frequency and between two supporting points the value demanded by the chosen interpolation (zero, one, linear, logarithmic, semi-logarithmic in x or y, nearest on linear or logarithmic axis); outside the supporting range it follows the chosen extrapolation. "
  "The result depends on neither the order of the supporting points nor on how or in which order query frequencies are passed. "
  "Conversion to and from decibels is inverse and follows 20*log10 (or the given factor) relative to the reference.",
  ["inputs", "configurations"], "every set of supporting points, interpolation/extrapolation pair, query frequency", "tests interpolate a few points per mode", [D + "_filters/_bands.py", "sumpf/_internal/_interpolation.py", PR], [("interpolation functions", "sumpf/_internal/_interpolation.py"), ("Bands term", PR), ("dB conversion", D + "_filters/_bands.py")])
p("P18", "Saved signals load back unchanged up to the format's resolution",
  "For every signal file format that can be written, saving and loading a signal restores shape, sampling rate, samples within the quantisation of that format (exactly for 64-bit formats, clipped to full scale for integer audio formats), and additionally offset and labels where the format stores them. "
  "Automatic format choice follows the file extension, saving never alters the signal, and overwriting an existing file leaves only the new content.",
  ["inputs", "configurations"], "every format and alias, channel count, length (including 1 and odd), sampling rate, sample values including full scale, labels with any characters", "tests save one sweep per format with a tolerance", [PER + "_signal_writers.py", PER + "_signal_readers.py", PER + "_auto_writer.py", PER + "_functions.py"], [("writers", PER + "_signal_writers.py"), ("readers", PER + "_signal_readers.py"), ("format guessing", PER + "_auto_writer.py, _functions.py")])
p("P19", "Saved spectrums and spectrograms load back unchanged",
  "For every file format a spectrum or spectrogram can be written to, saving and loading restores complex data, resolution and, where the format stores them, sampling rate, offset and labels, exactly for 64-bit formats and within rounding otherwise. "
  "Loaded objects are ordinary values: comparable, hashable and usable in all operations.",
  ["inputs", "configurations"], "every format and alias, shape, complex values, labels", "tests save one object per format", [PER + "_spectrum_writers.py", PER + "_spectrum_readers.py", PER + "_spectrogram_writers.py", PER + "_spectrogram_readers.py"], [("writers/readers", PER)])
p("P20", "Saved filters load back with the same response",
  "For every file format a filter can be written to, saving and loading an arbitrary combination of terms or a bands filter gives a filter with the same labels and the same response at every frequency (for table formats: the same supporting points and values, within the printed precision). "
  "The loaded bands filter keeps interpolation and extrapolation where the format stores them.",
  ["inputs", "configurations"], "every term tree, bands filter, format and alias, label", "tests save a fixed list of filters", [PER + "_filter_writers.py", PER + "_filter_readers.py", FIL], [("dictionary serialisation", D + "_filters/_base/_terms/"), ("writers/readers", PER + "_filter_writers.py, _filter_readers.py")])
p("P21", "Loading picks the right reader and fails cleanly on everything else",
  "Loading a file finds the right format from the content whatever its extension is (for every self-describing format), and loading empty, truncated, random or foreign files either raises ValueError or returns a well-formed object, never another exception. "
  "Asking to save in an unsupported or unknown format raises ValueError and leaves no partial file claims of success; loading never modifies the file.",
  ["inputs", "fault_sequences"], "every byte string, truncation or corruption of a valid file, extension", "tests load one or two wrong files", [PER], [("reader selection", PER + "_functions.py"), ("readers", PER + "_signal_readers.py")])
p("P22", "Concatenation equals the ordered overlay of its current inputs",
  "At any time the concatenation of data sets equals placing the current inputs one after another in their order: each one starts at the end of the previous one plus its own offset, overlapping regions add up, gaps and missing channels are zero and no data of complex or real inputs is lost. "
  "After any sequence of adding, replacing and removing inputs, directly or through a network of connected blocks, the output is the same as that of a fresh concatenation of the remaining inputs, and the inputs themselves are never modified.",
  ["histories", "inputs"], "every history of add/replace/remove and every mix of shapes and offsets", "tests run one scripted history", ["sumpf/_blocks/_concatenate.py"], [("ordered inputs", "sumpf/_blocks/_concatenate.py")])
p("P23", "Merging equals the channel-wise combination of its current inputs",
  "At any time the merge of data sets or filters contains exactly the channels and labels of the current inputs, in data-set-first or channels-first order, aligned by offset and zero-padded to the common range. "
  "After any sequence of adding, replacing and removing inputs and changing the mode the output equals that of a fresh merge of the remaining inputs in the same order, and the inputs themselves are never modified.",
  ["histories", "inputs"], "every history of add/replace/remove/mode changes and every mix of shapes and offsets", "tests run one scripted history", ["sumpf/_blocks/_merge.py"], [("merge strategies", "sumpf/_blocks/_merge.py")])
p("P24", "Window functions equal their definitions",
  "Every window signal equals the reference definition of that window (scipy's, or the cosine sum documented for it), in the symmetric or periodic variant, with the plateau keeping a constant maximum in the middle, for every length. "
  "Its sampling rate, length and label are as requested, and the parameters, that the window computes for a given overlap (scaling factor, amplitude and power flatness, overlap correlation) as well as its -3dB bandwidth and scalloping loss follow from its samples according to their definitions.",
  ["inputs", "configurations"], "every window class and parameter, length including 0, 1, 2, plateau, symmetry, overlap", "tests use one or two lengths", [D + "_signals/_windows.py", D + "_signals/_windows_scipy.py"], [("window classes", D + "_signals/_windows.py, _windows_scipy.py")])
p("P25", "Sweeps follow their frequency law and invert by their inverse sweeps",
  "Exponential and linear sweeps equal sin(phase(t)) where the instantaneous frequency goes exponentially or linearly from start to stop frequency over the specified interval, the instantaneous frequency method, minimum and maximum frequency are consistent with the samples, and the respective inverse sweep is the time-reversed, amplitude-weighted sweep whose convolution with the sweep approximates a unit impulse. "
  "Harmonic impulse responses are cut from the impulse response at the delay of the respective harmonic (also for fractions of samples) without changing the given impulse response.",
  ["inputs", "configurations"], "every start/stop frequency, interval, length, sampling rate, phase", "tests use one sweep", [D + "_signals/_sweep.py"], [("sweep classes", D + "_signals/_sweep.py")])
p("P26", "Generators produce the signals they specify",
  "Sine waves, constants, fades, maximum length sequences, Rudin-Shapiro spectrums and noise have exactly the requested length, sampling rate, channel count and labels; deterministic ones equal their closed-form definition, maximum length sequences are +1/-1 sequences with the ideal periodic autocorrelation, and noises are reproducible from their seed, differ for different seeds and follow the requested distribution. "
  "Two generators of the same parameters yield equal data, without touching the global random state.",
  ["inputs", "configurations"], "every parameter combination", "tests use a few parameters", [D + "_signals/_noise.py", D + "_signals/_waves.py", D + "_signals/_mls.py", D + "_signals/_fade.py", D + "_signals/_constant.py", D + "_spectrums/_rudinshapiro.py", D + "_spectrums/_constant.py", D + "_spectrograms/_constant.py"], [("generators", D + "_signals")])
p("P27", "JACK playback and recording are sample-exact under any block schedule",
  "Whatever block size the JACK server delivers and however playback signal and block boundaries relate, each output port plays exactly the corresponding channel once, starting with the first block, followed by silence, and the recorded signal contains exactly the input samples of the same interval with the client's sampling rate, channel labels and the playback signal's offset. "
  "Reuse of the client for further signals, changes of the ports and connections between recordings (which survive the automatic deactivation), empty signals, xrun notifications and calls from other threads do not mix up samples; every xrun is counted and reported with the affected samples.",
  ["schedules", "histories", "inputs"], "every sequence of process-callback block sizes, signal lengths relative to the block size, channel counts and repeated runs", "the tests run against one JACK server with one fixed block size, one playback per client and whatever schedule the server happens to deliver", ["sumpf/_blocks/_jack.py"], [("process callback", "sumpf/_blocks/_jack.py")])
p("P28", "Every operation treats channels independently",
  "For every unary or binary operation, transform, statistic, filter application or level computation, the result's channel k depends only on channel k of the inputs: processing a multi-channel object equals processing its channels separately, and permuting the channels permutes the results and their labels.",
  ["inputs", "programs"], "every operation of signals, spectrums, spectrograms and filters and every channel set", "tests mostly use one or two channels", [SIG, SPC, SGR, FIL], [("channel loops", SIG + ", " + SPC + ", " + SGR)])
p("P29", "Derived views are consistent with data and axes",
  "Duration, time and frequency samples, maximum frequency, real and imaginary part, magnitude, phase and conjugate of signals, spectrums and spectrograms equal their definitions from channels, sampling rate, resolution and offset, with one axis value per sample or bin. "
  "Magnitude and phase as well as real and imaginary part recombine to the data, and the axes of a transformed data set fit to those of the original one.",
  ["inputs"], "every object, shape, offset, sampling rate", "tests look at one object", [SIG, SPC, SGR], [("derived parameters", SIG + ", " + SPC + ", " + SGR)])
p("P30", "Missing optional libraries only remove what requires them",
  "If any of the optional libraries NumExpr, SciPy, SoundFile and JACK-Client are not installed, the package can be imported and everything, that does not require them, behaves exactly as specified: computations, data classes, filters, sweeps of any length, processing blocks and the files, that can be handled with the standard library and NumPy. "
  "Saving falls back to another writer or another format for the file extension, loading to another reader, and files in formats, which require the missing library, as well as features, which are documented to require it, are refused with an error (or the class is missing), while no feature is lost because of another missing library.",
  ["inputs", "configurations"], "every combination of missing libraries with every feature and file format", "the tests run with all libraries installed", ["sumpf/__init__.py", "sumpf/_data/_signals/__init__.py", "sumpf/_data/_signals/_sweep.py", "sumpf/_internal/_persistence/_functions.py", "sumpf/_internal/_persistence/_auto_writer.py"], [("optional imports", "sumpf/_data/_signals/__init__.py, sumpf/_blocks/__init__.py, sumpf/_data/_signals/_sweep.py"), ("selection of readers and writers", "sumpf/_internal/_persistence/_functions.py")])
p("P31", "Undefined operations and unlike data are refused without any effect",
  "Operators between objects, for which no result is defined (foreign objects, other kinds of data sets than the documented combinations, incompatible numbers of channels, bins or samples), unknown option values and unknown ports as well as merging or concatenating data sets of different or unsupported types raise an error promptly instead of returning a result. "
  "A refused operation leaves its operands, the processing blocks, the ports and their connections unchanged. A block delivers its specified result again, after the offending data set has been removed or replaced.",
  ["inputs", "histories"], "every operator and every pair of operands without a defined result, every option parameter, every sequence of additions, removals and replacements with unlike data", "the tests try one wrong argument per function and do not look at the state after the error", ["sumpf/_data/_sampled_data.py", "sumpf/_data/_filters/_base/_filter.py", "sumpf/_blocks/_merge.py", "sumpf/_blocks/_concatenate.py", "sumpf/_blocks/_jack.py"], [("operators", "sumpf/_data/_sampled_data.py, sumpf/_data/_filters/_base/_filter.py"), ("processing blocks", "sumpf/_blocks")])
p("P32", "Results depend only on the arguments, not on history or other threads",
  "Whatever is computed with the package (operators, transforms, statistics, predefined signals, windows, noise with a seed, filter responses, files that are saved and loaded, merged and concatenated data sets) yields the same result, no matter what has been computed before in the same process, how often, and whether a computation before it has failed. "
  "It also yields this result, when other threads use the package in the meantime, even with the same operands, no matter at which points the threads are switched. "
  "Results, which have been returned, are not changed by computations, that come later.",
  ["inputs", "histories", "schedules"], "every set of computations, every order and repetition of them and every switching of two threads between executed lines of the package", "the tests run each function in one order in a single thread", ["sumpf/_data", "sumpf/_internal", "sumpf/_blocks/_merge.py", "sumpf/_blocks/_concatenate.py"], [("data sets and filters", "sumpf/_data"), ("interpolation, convolution, persistence", "sumpf/_internal")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
