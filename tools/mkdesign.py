"""Writes DESIGN.md: the method (design_head.md), then one section per property from the
property list, the checks and the notes below."""
import glob
import importlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

# what the solver is asked, and where the expected value comes from
HOW = {
    "P01": "Each returned sample and axis value is shown equal to the stored sample at the positions computed by the harness from the request; positions are written by hand per kind of selection (`SEL`), not read from the code.",
    "P02": "The full signal is rebuilt in the harness (copies, with alternating sign for antiperiods); whole, one period, one antiperiod and smallest period requests are shown equal to it sample by sample, together with the axis continued by its step.",
    "P03": "The requested value or bounds are symbolic, so that z3 splits them between the samples: on each path the chosen sample is shown to be a nearest one and an interval to contain exactly the samples inside it. Requests by unit and by normalization multiply the requested value.",
    "P04": "The new axis values are symbolic; each path fixes between which samples they lie, and the result is shown equal to the chord at the value (products weight x field: nonlinear queries).",
    "P05": "Sums, means, rms, rss, integrals, max, min are written in the harness from their definition on the rebuilt signal (closed trapezoid on time and angle); roots through an atom defined by r>=0, r*r=x.",
    "P06": "The derivative is shown equal to the divided differences, and the antiderivative to the cumulated trapezoids less their mean, on the rebuilt signal; on frequency axes to the product or quotient by 2*i*pi*f.",
    "P07": "The DFT is an exact sum in the model of `numpy.fft`; the harness computes its own sum, scaling (2/N except at 0) and ordering, for 1 and 2 transformed axes among up to 3. Linear queries.",
    "P08": "Time or space signal to spectrum and back (and spectrum to signal and back) is shown to be the identity, in values, axes and metadata; the intermediate object is also changed to show independence.",
    "P09": "Direct sums at given frequencies over symbolic fields: the harness writes the sum of x exp(-2 i pi f t) for the requested list, interval, single value or non-uniform samples.",
    "P10": "The factor of every unit expression is computed from a table of SI exponents and prefixes in the harness; the converted value is linear in the symbolic value. Different dimensions must raise.",
    "P11": "dB, dBA, octave levels: the harness builds the argument of each log10 and the A-weight itself; log10 is an atom identified by its argument, so the queries compare arguments and coefficients.",
    "P12": "Each kind of normalization is written as a formula of symbolic value and symbolic reference, on every kind of axis and on fields.",
    "P13": "All stored arrays and dictionaries are captured before; after each request, and each ordered pair of requests, they are shown equal to the capture; answers are compared to those of a fresh object.",
    "P14": "The 2x2 rotation at each angle is written in the harness; values, magnitudes, harmonics and objects are shown equal to the rotated components; there-and-back is the identity.",
    "P15": "Copies, dictionary forms and saved and loaded files (json, in a scratch directory) are shown equal attribute by attribute; changing either one must not change the other; differing objects compare different.",
    "P16": "Each line (order, f) goes to f + order*shift, folded with its conjugate when negative; the sum of the lines as a signal is compared at sample times with the original signal seen from the moving referential.",
    "P17": "The signals of two spectra are sums of cosines; sum and product of these, line by line, give the expected amplitude at each resulting frequency.",
    "P18": "The extracted object is asked for all its axes and compared with the direct request; units, symmetries, normalizations, names and domain are given by rules in the harness.",
    "P19": "Magnitude by r>=0 and r*r=re^2+im^2, phase by the atan2 atom; for largest harmonics, the order of symbolic magnitudes is split by z3 and the listed lines shown to dominate the others.",
    "P20": "All values and the tolerance order are symbolic: each value has a representative within the tolerance, representatives are values, indices and counts refer to them.",
    "P21": "A signal made of the known lines with symbolic amplitudes is filtered; the linear system of the filter is solved by exact elimination; each amplitude is shown equal to the one put in.",
    "P22": "The rebuilt whole axis and whole field before and after are shown equal.",
    "P23": "Fields on different axes are compared: the common axis (densest samples of the shared range) and the chords of each field on it are recomputed by the harness, and so are reductions, magnitudes and phases of them.",
    "P24": "A dual field is given unrelated symbolic values in its two forms, so that each answer tells from which form it was taken.",
    "P25": "The csv file is written into a scratch directory and read back; each cell is a token standing for a symbolic value and is shown equal to the request.",
    "P26": "The positions of the repeated slices are rebuilt in the harness from the pattern indices; selections, operations and values are compared.",
    "P27": "All shapes and axis lengths within bounds: consistent ones are accepted and answer, the others raise.",
    "P29": "The drawing functions of matplotlib are replaced by recorders; what they receive (abscissae, ordinates, limits, labels) is shown equal to the request computed by the harness.",
    "P30": "Each refused request must raise, for all values, and leave the object as captured before it; the same request made valid must answer.",
    "P31": "Values, length, period, first/last, uniform form and conversions of an axis are compared with the list of its values.",
    "P32": "The same request is given to each method that takes one (values, magnitude, phase, harmonics, objects, vector fields, every calling form); answers are shown equal to the function of the plain answer they stand for.",
}
SEEDED_NOTE = {}

FALSE_ALARMS = """
* Value selection: half way between two samples the nearest one is not unique, such requests are outside the statement.
* Reductions along pattern axes are not closed by one more step: the expected value follows the library there.
* Nyquist line: the library doubles it as it does the other lines; the oracle does the same (documented convention, checked by the round trip).
* A single wavenumber is the line of the two-sided spectrum and is not doubled; a single frequency close to a line is this line, and beyond the last line it is not a number (outside the bounds of P09).
* Names of axes which the field does not have are ignored in a request (documented use): not a refusal (P30).
* Levels in decibels interpolated across the change of sign of an antiperiodic field are left out of P32: the interpolation is made on the field, not on the level.
* Fields with both forms may remember the form read last (P13): their answers are compared instead of their attributes; the one visible effect (comparison of two objects) is a known finding.
* Tolerances: a candidate whose difference is within rounding of the float replay is not a violation, as replayed candidates decide.
"""


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    na = {d["property"]: d["reason"] for d in man["not_applicable"]}
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
    out.append("Costs are those of the quick tier on 8 cores. `cfg` is the number of configurations (quick / thorough).")
    out.append("")
    for p in props:
        i = p["id"]
        out += ["### %s %s" % (i, p["title"]), ""]
        if i in na:
            out += ["Not applicable: " + na[i], ""]
            continue
        mod = importlib.import_module("checks." + i.lower())
        nq, nt = len(list(mod.configs("quick"))), len(list(mod.configs("thorough")))
        ev = os.path.join(HERE, "evidence", i + ".json")
        cost = ""
        if os.path.exists(ev):
            e = json.load(open(ev))
            c = e["coverage"]
            cost = "%d cfg / %d; %d paths, %d statements, %d queries, about %d s." % (
                nq, nt, c["states"], c["obligations"], c["solver_queries"], max(1, round(e["wall_s"])))
        out += ["*Decided by:* " + HOW[i], ""]
        out += ["*Bounds:* " + mod.BOUNDS + ".", ""]
        ass = getattr(mod, "ASSUMPTIONS", [])
        if ass:
            out += ["*Assumptions:* " + "; ".join(ass) + ".", ""]
        out += ["*Beyond the tests:* " + p["why_tests_cant"], ""]
        out += ["*Cost:* " + cost, ""]
    out += ["## Defects of the library", "", "Left standing (known findings, see `known_findings.json`):", ""]
    out += ["* %s `%s`: %s" % (f["property"], f["configuration"], f["what"]) for f in known["findings"]]
    out += ["", "Repaired in `/repo` (one `fix:` commit each):", ""]
    out += ["* " + f[len("fixed: property="):] for f in known["fixed"]]
    out += ["", "## False alarms corrected", FALSE_ALARMS.strip(), ""]
    out += ["## Planted bugs", "", "| id | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        sid = os.path.basename(os.path.dirname(m))
        out.append("| %s | %s | %s | %s | %s |" % (sid, d["property"], d["needs"], d["what_it_breaks"], SEEDED_NOTE.get(sid, d["property"])))
    out.append("")
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


main()
