"""writes MANIFEST.json: one check per property that has one; the others are not applicable, with the reason"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.main import checks

BASE = "abstract interpretation of the typed MIR (path-sensitive value-flow summaries, loop closed forms and inductive invariants)"
TECH = {
    "X01": "effect analysis over the whole-program call graph (typed MIR, resolved callees) and syntax-level unsafe/static lint",
    **{i: BASE + "; polynomials abstracted as ring elements, summaries composed as contracts" for i in ("P01", "P02", "P03", "P06", "P07", "P08", "P09")},
    **{i: BASE + "; the list of polynomials as a typestate (ideal, Groebner, nonzero, minimal, inter-reduced, monic): largest inductive subset of predicates per loop" for i in ("P10", "P11", "P12")},
    "P13": BASE + "; the formatter's content as a sequence of text parts (literals, values printed by Display, superscripts), compared with the specified parts under the facts of each path",
    "P04": BASE + "; agreement of sibling operator implementations by comparing summaries and call forwarding",
}
NOTE = ("Every path of every anchored function is summarised from the source on each run and each obligation discharged by normal forms and "
        "linear reasoning over path facts, for all inputs (no bound on sizes); the evidence lists obligations left undecided, if any. "
        "Trusted: the MIR driver, the analyser in sa/ (not machine-checked), its models of std/itertools functions. "
        "Assumes 64-bit integers do not overflow and, where a property is about fields, exact field arithmetic.")
PNOTE = NOTE + (" Polynomials are compared as ring elements (formal sums over abstract monomials), lists of terms up to the order of terms; "
                "the monomial order is an arbitrary total order; multidegree operations enter through contracts that the same run re-establishes.")
NOTES = {
    **{i: PNOTE for i in ("P01", "P02", "P03", "P06", "P07", "P08", "P09")},
    **{i: NOTE + " That row operations as recorded compose to an invertible matrix, and that pivots of an echelon form are strictly increasing, enter as lemmas of linear algebra (trusted base)." for i in ("L07", "L08", "L09")},
    **{i: PNOTE + " The lemmas of commutative algebra that relate one step on the list to the typestate predicates (Buchberger's criterion among them) are part of the trusted base." for i in ("P10", "P11", "P12")},
    "P13": NOTE + " Formatting templates are decoded as core::fmt encodes them; a write to the formatter is assumed to succeed; negative zero and NaN coefficients are outside the statement.",
    "X01": "Effect rule up to std: no callee among the known sources of nondeterminism of std/core/alloc, no mutable or interior-mutable static, thread-local, clock, environment, input, address, spare-capacity or hash-order observation in any function of the crate. Sound up to the completeness of the list of impure std functions; a flagged site is reported with function and callee.",
}
NA = {
    "N01": "termination rests on a well-order on monomials (division) and on Noetherianity of the polynomial ring (Buchberger): no static ranking argument over the code in reach bounds the number of iterations",
    "N02": "a quantitative bound on accumulated rounding error quantifies over run-time float values; a sound static bound for elimination with data-dependent pivoting is out of reach of this family",
    "N03": "the set of facets is a geometric fact about the values of the generators (enumeration over subsets and signs of determinants); no shape of the code decides it",
}
PENDING = "no check is claimed: the static analysis does not decide this property yet"


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    ch = checks()
    out = {"version": 1, "setup_cmd": "cd driver && cargo +nightly build --release --offline -q", "checks": [], "not_applicable": []}
    for p in props:
        i = p["id"]
        if i in ch:
            out["checks"].append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
                                  "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, BASE), "level": "other",
                                  "level_note": NOTES.get(i, NOTE)})
        else:
            out["not_applicable"].append({"property": i, "reason": NA.get(i, PENDING)})
    out["notes"] = "Static analysis only: nothing of the crate under test is run. The checks read /repo's current source through a rustc driver (driver/) and decide the obligations in sa/checks/."
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not applicable")


main()
