"""P04: every form of a binary operator (owned, borrowed, operands exchanged) is summarised on its own; forms agree
when each denotes the operation on its operands in their order."""
from .common import *
from . import mdeg, poly, linalg

PARTS = ((mdeg, "M02"), (poly, "P02"), (poly, "P03"), (linalg, "L05"))
TYPES = ("MultiDegree", "Term", "Polynomial", "Mat")
RULE = "denotes the operation, as its other forms do"


def forms(S):
    """the operator implementations, by operator and the two operand types"""
    out = {}
    for r in S.prog.roots:
        tr = r.get("trait") or ""
        if "ops::" not in tr or last(tr) not in ("Add", "Sub", "Mul", "Div", "Rem") or r.get("self") is None:
            continue
        a = tyname(S.types, r["self"]).lstrip("&")
        args = r.get("trait_args") or []
        b = tyname(S.types, args[0]).lstrip("&") if args else a
        if a not in TYPES:
            if b not in TYPES:
                continue
        out.setdefault((last(tr), tuple(sorted((a, b)))), []).append(label(r))
    return out


def p04(S):
    groups = forms(S)
    want = {f for g in groups.values() for f in g}
    got, seen = {}, {}
    for mod, i in PARTS:
        T = Suite(S.pid, S.prog, S.tier)
        T.peel = getattr(S, "peel", None)
        mod.CHECKS[i](T)
        for f, v in T.functions.items():
            if f in want:
                S.functions[f] = v
        for o in T.obl:
            if o["function"] in want:
                got.setdefault(o["function"], []).append(o)
        for k, v in T.violations.items():
            if v["function"] in want:
                seen.setdefault(v["function"], v)
    if not groups:
        S.violate("operators", "the operators exist", "no operator implementation found", {})
    for g, fs in sorted(groups.items()):
        good = [f for f in fs if got.get(f) and all(o["status"] == "proved" for o in got[f])]
        for f in sorted(fs):
            if f in good:
                S.proved(f, RULE)
            elif f in seen and good:
                v = seen[f]
                S.violate(f, RULE, "%s: %s; proved for %s" % (v["rule"], v["why"], good[0]), v["witness"])
            elif f in seen:
                S.undecided(f, RULE, "no form of the operator is right: nothing to compare with")
            else:
                S.undecided(f, RULE, "; ".join(sorted({str(o.get("why")) for o in got.get(f, []) if o["status"] != "proved"}))[:200] or "not summarised")


CHECKS = {"P04": p04}
