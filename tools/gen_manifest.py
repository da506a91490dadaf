"""Writes /verif/MANIFEST.json from the list of contracts that exist and the notes below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: the real source is executed symbolically against its contracts, obligations discharged by ring normalization and z3"
COMMON = ("Proof over exact real arithmetic (floating point treated as reals); trusts pv/ (the obligation generator), the contracts of the "
          "numpy/scipy functions used, and z3. An obligation the verifier cannot decide is reported as open and stood in for by a "
          "bounded run-time check of the same contract. ")
NOTES = {
    "C01": "All 120 Noll indices, all integer arguments, arrays of 0 to 3 axes of any sizes.",
    "C02": "Modes up to n=20 against the textbook polynomial for every point; any degrees against the Jacobi form of it (identity trusted beyond).",
    "C03": "Arrays of 1 to 4 dimensions of any sizes, every choice of axes; the shift and the DFT's inversion lemma are contracts of numpy.fft.",
    "C04": "Arrays of 1 to 3 dimensions of any sizes; next_fast_len is an unknown function returning at least its argument.",
    "C05": "1 to 3 axes, any real or integer centres and widths.",
    "C06": "Stacks of any sizes of four integer types, any xysize and multiplier; the peak and the mode are the operations argmax and bincount.",
    "C07": "1 to 3 axes and any bin sizes dividing or not; sums are symbolic.",
    "C08": "1 to 3 axes of any sizes, real, integer (8 and 16 bit too) and complex data, any centre and positive bin size.",
    "C09": "All parameter values, of either numeric type and any sign, in the constructor and in assignments after histories that reach every combination of parameters; wrong types and unknown names are samples plus one value that equals nothing.",
    "C10": "By induction over operations: every assignment, read, pupil, rejection and copy from every combination of cached outputs, with symbolic parameters; Sheppard sizes of at least 3.",
    "C11": "All five vectorial corrections and three conditions, every grid size, any z range, any applied pupil.",
    "C12": "All corrections, conditions and dual flags, every grid size of at least 3 along each axis.",
    "C13": "All corrections and conditions of both models, three orders of reading.",
    "C14": "All corrections and conditions, every grid size, any z range and any applied pupil that vanishes beyond the sphere; Parseval is a trusted lemma on the transforms found in the code.",
    "C15": "Any coefficients (both, magnitude only, phase only, integers), every grid size, any z range and corrections; all fifteen names, alone and combined. zernike enters through its contract (C02, C23).",
    "C16": "Any data (real or integer), stack shape, tolerances and number of iterations, by induction over the iterations with an invariant whose roles are inferred and then proved; phase unwrapping is the operation unwrap_phase.",
    "C17": "Any number of modes, every grid size and any selection by a slice; least squares by the normal equations (trusted lemma on lstsq); PSFs padded or cropped to any size.",
    "C18": "Both models, any size and planes, any odd oversampling factor (symbolic), own and default z sampling.",
    "C19": "Both models, any sizes, pinhole radii and wavelengths, histories of reads and assignments, oversampling 1 and 3 (PSF: 1, 3, 5).",
    "C20": "All four SIM classes, every combination of coherent, dc, DC suppression and Wiener setting, histories of assignments; 1 to 4 orientations with symbolic angles (the loop over orientations is unrolled).",
    "C21": "Both models, oversampling 1, 3 and 5, any sizes and parameters for which the half Abbe ring exists.",
    "C22": "Volumes of any sizes, any pixel sizes and options (symbolic limits and gamma), figures given or new; matplotlib is a recorder. The plot methods are verified against the plot functions' signature.",
    "C23": "All angles and indices in the stated domain.",
    "C24": "Any data, settings and shapes, positional, keyword and default forms; the two callees stand for any functions with their signatures.",
    "C25": "All real inputs, scalars and arrays.",
}
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in NOTES and i not in NA:
        cmd = f"/opt/venv/bin/python /verif/check.py {i} --tier "
        checks.append(dict(property=i, quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough", evidence_file=f"evidence/{i}.json",
                           technique=TECH, level="proof", level_note=COMMON + NOTES[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "contracts not written yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
