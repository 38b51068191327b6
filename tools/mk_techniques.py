"""Writes techniques.json: the deciding method of each check"""
import json, os
H = "property-based testing (Hypothesis)"
T = {
"P01": (f"{H}: reference model on a dictionary from time index to sample, expression programs, metamorphic delays", "numpy's element-wise functions"),
"P02": (f"{H}: reference model with explicit broadcasting, expression programs", "numpy's element-wise functions"),
"P03": (f"{H}: reference model on the common time axis, expression programs", "numpy's element-wise functions"),
"P04": (f"{H}: differential testing against indexing of Python sequences of positions", "Python's list indexing"),
"P05": (f"{H}: reference model by explicit index arithmetic, round trips", "the index arithmetic in the check"),
"P06": (f"{H}: explicit DFT sums with exact phase reduction, inverse and linearity relations", "the DFT sum in the check"),
"P07": (f"{H}: explicit windowed DFT sums on the true time axis, equivalent notations of windows and overlaps", "the DFT sum in the check"),
"P08": (f"{H}: round trip and explicit overlap-add model", "the overlap-add model in the check"),
"P09": (f"{H}: explicit double sums over the time axis, metamorphic delays", "the sums in the check"),
"P10": (f"{H}: circular convolution with the original as oracle", "the DFT sum in the check"),
"P11": (f"{H}: exactly rounded sums over the definitions", "math.fsum and the formulas in the check"),
"P12": (f"{H}: snapshots before and after, structural equality of generated cases, eval/repr round trip, stateful programs", "the snapshots' comparison"),
"P13": (f"{H}: random term trees against a complex-valued evaluator with running error bounds", "the evaluator in vlib/filters.py"),
"P14": (f"{H}: differential testing against response times data, permutation relations", "the evaluator in vlib/filters.py and the DFT sums"),
"P15": (f"{H}: differential testing against scipy's analog prototypes and closed forms", "scipy.signal's analog filter design, exact rational Bessel polynomials"),
"P16": (f"{H}: standard formulas as oracle", "the formulas of the standards"),
"P17": (f"{H}: scalar interpolation model", "the scalar model in the check"),
"P18": (f"{H}: save/load round trip against quantisation models, stateful overwriting, format fuzzing of tables", "the quantisation models"),
"P19": (f"{H}: save/load round trip, stateful overwriting", "exact comparison"),
"P20": (f"{H}: save/load round trip of random term trees, generated tables", "the evaluator in vlib/filters.py"),
"P21": (f"{H}: fuzzing of files by truncation, bit flips, splicing, renaming and foreign content", "the set of permitted outcomes"),
"P22": (f"stateful {H}: histories of edits against a model and a fresh instance", "the overlay model in the check"),
"P23": (f"stateful {H}: histories of edits against a model and a fresh instance", "the merge model in the check"),
"P24": (f"{H}: differential testing against scipy's windows and cosine sums, definitions by explicit overlapping", "scipy.signal.windows, coefficients from the literature"),
"P25": (f"{H}: high precision phase law, convolution with the inverse, explicit harmonic extraction", "the phase law in the check"),
"P26": (f"{H}: closed forms, autocorrelation and distribution bounds", "the closed forms; bounds for the distributions"),
"P27": (f"stateful {H} with a simulated JACK server: generated block schedules, histories of calls, injected cycles at every source line", "vlib/fakejack.py as a model of the JACK server"),
"P28": (f"{H}: metamorphic relation between multi-channel and channel-wise processing, permutations, poisoned other channels", "nothing but the relation"),
"P29": (f"{H}: definitions of the views and axes, recombination relations, after random programs of operations", "the formulas in the check"),
"P30": (f"{H}: the other properties' cases and oracles in processes, in which generated combinations of libraries are missing; generated files", "the other checks' oracles, the emulation of missing libraries in vlib/bare.py"),
"P31": (f"{H}: generated operands, options, block and port histories, for which no result is defined", "an error must be raised and a snapshot of all operands and the reference models of the blocks and ports must be unchanged"),
"P32": (f"{H}: generated sequences and pairs of computations and schedules for switching their threads", "differential: each result must equal that of a freshly forked process, in which nothing else has been computed"),
}
here = os.path.dirname(os.path.abspath(__file__))
json.dump({k: {"technique": t, "note": f"No counterexample among the generated cases counted in the evidence file; nothing is proved. Trusted: {n}, checks/{k}.py, Hypothesis' generator."} for k, (t, n) in T.items()},
          open(os.path.join(here, "techniques.json"), "w"), indent=1)
