from ..check import *
from ..terms import *
from ..facts import *
from ..values import *
from ..interp import *


def last(s):
    """last path segment of a type or trait, without its arguments"""
    s = s or ""
    d, out = 0, ""
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return out.split("::")[-1].strip("& ").strip()


def tyname(types, i):
    t = types.T[i]
    k = t["k"]
    if k == "ref":
        return "&" + ("mut " if t.get("mut") else "") + tyname(types, t["e"])
    if k == "adt":
        return last(t["path"])
    if k in ("slice", "array"):
        return "[" + tyname(types, t["e"]) + "]"
    if k == "tuple":
        return "(" + ",".join(tyname(types, e) for e in t["es"]) + ")"
    return t.get("was") or t.get("name", k)


def find(S, ty, trait, name, args=None, selfref=None):
    """roots: the method `name` of `trait` (None: inherent) for the type whose last segment is ty"""
    out = []
    for r in S.prog.roots:
        if r["name"] != name:
            continue
        if trait is None:
            if r.get("trait"):
                continue
            segs = r["path"].split("::")
            if ty is None:
                if r.get("self_ty"):
                    continue
            elif last(r.get("self_ty")) != ty:
                continue
        else:
            if last(r.get("trait")) != trait or r.get("self") is None:
                continue
            if tyname(S.types, r["self"]).lstrip("&") != ty:
                continue
            if selfref is not None and (S.types.T[r["self"]]["k"] == "ref") != selfref:
                continue
            if args is not None and [tyname(S.types, a) for a in r.get("trait_args") or []] != list(args):
                continue
        out.append(r)
    return out


def the(S, ty, trait, name, args=None, selfref=None):
    """the one such function; a violation (missing anchor) if there is none"""
    rs = find(S, ty, trait, name, args, selfref)
    if not rs:
        S.violate("%s%s::%s" % (ty or "", " as " + trait if trait else "", name), "anchor",
                  "the public function this property is stated for is not in the crate any more")
        return None
    return rs[0]


def label(r):
    return r["path"]


def ret_type(S, r):
    b = S.prog.body(r["key"])
    return None if b is None else b.locals[0]


def params(S, r):
    b = S.prog.body(r["key"])
    return [b.locals[i + 1] for i in range(b.nargs)]


def walk(S, v, want, out=None):
    """all structured values of the adt with last segment `want` inside v"""
    out = [] if out is None else out
    v = force(v, S.types)
    if isinstance(v, AdtV):
        if last(v.path) == want:
            out.append(v)
            return out
        for x in v.fields:
            walk(S, x, want, out)
    elif isinstance(v, TupV):
        for x in v.fields:
            walk(S, x, want, out)
    return out
