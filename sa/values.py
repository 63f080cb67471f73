"""Abstract values: structured data over value numbers (terms.py)."""
from .terms import *
from .terms import Atom, Poly, _bvl
from . import terms as T
from .facts import norm_lit, trivial, neg, simplify_cases, Facts, dnf, term_atom, lead


class Undecided(Exception):
    """the analysis cannot summarise this construct; nothing is claimed"""


class Val:
    __slots__ = ("_fvc",)

    def parts(self):
        raise NotImplementedError

    def rebuilt(self, parts):
        raise NotImplementedError

    def fv(self):
        try:
            return self._fvc
        except AttributeError:
            self._fvc = frozenset(fv(self.parts()))
            return self._fvc

    @property
    def bvl(self):
        return _bvl(self.parts())

    def subst(self, S):
        if S.seqs is None and not (S.keys & self.fv()):
            return self
        p = self.parts()
        q = S.any(p)
        if q == p:
            return self
        return self.rebuilt(q)

    def __hash__(self):
        return hash((type(self).__name__, self.parts()))

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.parts() == o.parts())

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return type(self).__name__ + repr(self.parts())


class AdtV(Val):
    __slots__ = ("path", "variant", "fields")

    def __init__(self, path, variant, fields):
        self.path, self.variant, self.fields = path, variant, tuple(fields)

    def parts(self):
        return (self.path, self.variant, self.fields)

    def rebuilt(self, p):
        return AdtV(*p)

    def __repr__(self):
        return "%s#%d(%s)" % (self.path.split("::")[-1], self.variant, ", ".join(map(repr, self.fields)))


class TupV(Val):
    __slots__ = ("fields",)

    def __init__(self, fields):
        self.fields = tuple(fields)

    def parts(self):
        return (self.fields,)

    def rebuilt(self, p):
        return TupV(*p)

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.fields)) + ")"


class RefV(Val):
    """a reference to a place: root cell and projection path"""
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def parts(self):
        return (self.root, self.path)

    def rebuilt(self, p):
        return RefV(*p)

    def ext(self, *els):
        p = list(self.path)
        for e in els:
            if p and p[-1][0] == "sub" and e[0] in ("i", "sub"):
                s = p.pop()
                e = ("i", s[1] + e[1]) if e[0] == "i" else ("sub", s[1] + e[1], e[2])
            p.append(e)
        return RefV(self.root, p)

    def __repr__(self):
        return "&" + repr(self.root) + "".join("." + "/".join(map(str, e)) for e in self.path)


class ClosureV(Val):
    __slots__ = ("key", "ups")

    def __init__(self, key, ups):
        self.key, self.ups = key, tuple(ups)

    def parts(self):
        return (self.key, self.ups)

    def rebuilt(self, p):
        return ClosureV(*p)


class FnV(Val):
    """a function item; fn is the driver's function record (not part of equality beyond its key)"""
    __slots__ = ("key", "fn")

    def __init__(self, key, fn):
        self.key, self.fn = key, fn

    def parts(self):
        return (self.key,)

    def rebuilt(self, p):
        return FnV(p[0], self.fn)


class StrV(Val):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def parts(self):
        return (self.s,)

    def rebuilt(self, p):
        return StrV(*p)


class OpaqueV(Val):
    """a value the analysis keeps no information about, except its identity"""
    __slots__ = ("tag", "args")

    def __init__(self, tag, args=()):
        self.tag, self.args = tag, tuple(args)

    def parts(self):
        return (self.tag, self.args)

    def rebuilt(self, p):
        return OpaqueV(*p)


KEEP = OpaqueV("keep")      # as a case of a bulk update: nothing is written there


class SymV(Val):
    """an input (or part of one), expanded by its type when it is looked into"""
    __slots__ = ("key", "ty")

    def __init__(self, key, ty):
        self.key, self.ty = key, ty

    def parts(self):
        return (self.key, self.ty)

    def rebuilt(self, p):
        return SymV(p[0], p[1])

    def subst(self, S):
        if S.seqs is not None:
            v = key_value(S, self.key)
            if v is not None:
                return v
        return Val.subst(self, S)


# ---------------------------------------------------------------- sequences
class Seq(Val):
    __slots__ = ()
    # .n : length


class SymSeq(Seq):
    """elements are inputs: element i is the input ('el', key, i)"""
    __slots__ = ("key", "ety", "n")

    def __init__(self, key, ety, n):
        self.key, self.ety, self.n = key, ety, P(n)

    def parts(self):
        return (self.key, self.ety, self.n)

    def rebuilt(self, p):
        return SymSeq(p[0], p[1], p[2])

    def subst(self, S):
        if S.seqs is not None:
            v = key_value(S, self.key)
            if v is not None:
                return v
        return Val.subst(self, S)

    def __repr__(self):
        return "Sym<%s>" % (T.show(self.key),)


class LitSeq(Seq):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    @property
    def n(self):
        return P(len(self.items))

    def parts(self):
        return (self.items,)

    def rebuilt(self, p):
        return LitSeq(*p)

    def __repr__(self):
        return "[" + ", ".join(map(repr, self.items)) + "]"


class CompSeq(Seq):
    """[value(var) for var in 0..n]; cases: tuple of (literals, value), exhaustive and disjoint"""
    __slots__ = ("n", "bv", "cases")

    def __init__(self, n, bv, cases):
        self.n, self.bv, self.cases = P(n), bv, cases

    def parts(self):
        return (self.n, self.bv, self.cases)

    def rebuilt(self, p):
        return comp(p[0], self.bv, p[2])

    def __repr__(self):
        return "[%s for %s<%s]" % (self.cases[0][1] if len(self.cases) == 1 else self.cases, self.bv, self.n)


def comp(n, var, cases):
    """comprehension with a canonical bound variable"""
    n = P(n)
    cases = tuple((tuple(l), v) for l, v in simplify_cases(cases))
    c = n.const()
    if c is not None and c <= 0:
        return LitSeq(())
    bv, cs = bind(var, cases)
    # [s[i] for i in 0..len(s)] is s
    if len(cs) == 1:
        v = cs[0][1]
        s = whole_of(v, bv)
        if s is not None and s.n == n:
            return s
    return CompSeq(n, bv, cs)


def whole_of(v, bv):
    if isinstance(v, SymV) and v.key[0] == "el" and v.key[2] == P(bv):
        return None
    return None


class CatSeq(Seq):
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    @property
    def n(self):
        r = ZERO
        for s in self.segs:
            r = r + s.n
        return r

    def parts(self):
        return (self.segs,)

    def rebuilt(self, p):
        return cat(p[0])

    def __repr__(self):
        return "(" + " ++ ".join(map(repr, self.segs)) + ")"


def cat(segs):
    out = []
    for s in segs:
        if isinstance(s, CatSeq):
            new = s.segs
        else:
            new = (s,)
        for x in new:
            if isinstance(x, LitSeq):
                if not x.items:
                    continue
                if out and isinstance(out[-1], LitSeq):
                    out[-1] = LitSeq(out[-1].items + x.items)
                    continue
            elif x.n.const() == 0:
                continue
            out.append(x)
    if not out:
        return LitSeq(())
    if len(out) == 1:
        return out[0]
    return CatSeq(out)


class UpdSeq(Seq):
    __slots__ = ("base", "idx", "val")

    def __init__(self, base, idx, val):
        self.base, self.idx, self.val = base, P(idx), val

    @property
    def n(self):
        return self.base.n

    def parts(self):
        return (self.base, self.idx, self.val)

    def rebuilt(self, p):
        return UpdSeq(*p)

    def __repr__(self):
        return "%r{%r:=%r}" % (self.base, self.idx, self.val)





class MUpdSeq(Seq):
    """base with idx(vars) := value(vars) for all vars in their ranges (each cell at most once)"""
    __slots__ = ("base", "vars", "idx", "cases")
    # vars: tuple of (bv, n)

    def __init__(self, base, vars, idx, cases):
        self.base, self.vars, self.idx, self.cases = base, tuple(vars), P(idx), cases

    @property
    def n(self):
        return self.base.n

    def parts(self):
        return (self.base, self.vars, self.idx, self.cases)

    def rebuilt(self, p):
        return mupd(p[0], tuple((v, n) for (v, _), (_, n) in zip(self.vars, p[1])), p[2], p[3])

    def __repr__(self):
        return "%r{%r:=%r | %s}" % (self.base, self.idx, self.cases, ", ".join("%s<%s" % v for v in self.vars))


def mupd(base, vars, idx, cases):
    """vars: tuple of (atom, n), outermost first"""
    cases = tuple((tuple(l), v) for l, v in simplify_cases(cases))
    if any(n.const() is not None and n.const() <= 0 for _, n in vars):
        return base
    # the whole sequence is overwritten
    if len(vars) == 1 and idx == P(vars[0][0]) and base.n == vars[0][1]:
        return comp(vars[0][1], vars[0][0], cases)
    lvl = 1 + max(_bvl(base), _bvl(idx), _bvl(cases), *[_bvl(n) for _, n in vars])
    m = {}
    nv = []
    for k, (v, n) in enumerate(vars):
        b = atom("bv", (lvl + k,), "usize")
        m[v] = P(b)
        nv.append((b, n))
    S = Subst(m)
    nv = tuple((b, S.any(n)) for b, n in nv)
    return MUpdSeq(base, nv, S.any(idx), S.any(cases))


class SubSeq(Seq):
    __slots__ = ("base", "start", "n")

    def __init__(self, base, start, n):
        self.base, self.start, self.n = base, P(start), P(n)

    def parts(self):
        return (self.base, self.start, self.n)

    def rebuilt(self, p):
        return sub(*p)

    def __repr__(self):
        return "%r[%r;+%r]" % (self.base, self.start, self.n)


def sub(base, start, n):
    start, n = P(start), P(n)
    if not start.t and n == base.n:
        return base
    c, s = n.const(), start.const()
    if c == 0:
        return LitSeq(())
    if isinstance(base, LitSeq) and c is not None and s is not None and s + c <= len(base.items):
        return LitSeq(base.items[int(s):int(s + c)])
    if isinstance(base, SubSeq):
        return sub(base.base, base.start + start, n)
    if isinstance(base, CompSeq):
        v = atom("tmpbv", (), "usize")
        return comp(n, v, T.subst(base.cases, {base.bv: P(v) + start}))
    if isinstance(base, CatSeq) and s == 0:
        # a prefix made of whole segments
        acc, out = ZERO, []
        for g in base.segs:
            if acc == n:
                return cat(out)
            out.append(g)
            acc = acc + g.n
    return SubSeq(base, start, n)


class RemSeq(Seq):
    """base without the element at idx"""
    __slots__ = ("base", "idx")

    def __init__(self, base, idx):
        self.base, self.idx = base, P(idx)

    @property
    def n(self):
        return self.base.n - 1

    def parts(self):
        return (self.base, self.idx)

    def rebuilt(self, p):
        return RemSeq(*p)

    def __repr__(self):
        return "%r minus [%r]" % (self.base, self.idx)


class FiltSeq(Seq):
    """[value(var) for var in 0..m if keep(var)], keep: cases that keep with their value; the other
    cases (drop) keep nothing"""
    __slots__ = ("m", "bv", "cases", "drop", "n")

    def __init__(self, m, bv, cases, drop):
        self.m, self.bv, self.cases, self.drop = P(m), bv, cases, drop
        self.n = sym("cnt", (self.m, bv, tuple(l for l, _ in cases)), "usize")

    def parts(self):
        return (self.m, self.bv, self.cases, self.drop)

    def rebuilt(self, p):
        return filt(p[0], self.bv, p[2], p[3])

    def __repr__(self):
        return "[%r for %s<%s if ..]" % (self.cases, self.bv, self.m)


def filt(m, var, cases, drop):
    cases = tuple((tuple(l), v) for l, v in simplify_cases(cases))
    drop = tuple(tuple(l) for l, _ in simplify_cases(tuple((l, ZERO) for l in drop)))
    if not drop:
        return comp(m, var, cases)
    if not cases:
        return LitSeq(())
    bv, cs, dr = bind(var, cases, drop)
    return FiltSeq(m, bv, cs, dr)


class SortSeq(Seq):
    """base sorted (stably) ascending under the comparison `order` (a canonical value)"""
    __slots__ = ("base", "order")

    def __init__(self, base, order):
        self.base, self.order = base, order

    @property
    def n(self):
        return P(sym("card", (self.base,), "usize")) if self.order == ("set",) else self.base.n

    def parts(self):
        return (self.base, self.order)

    def rebuilt(self, p):
        return SortSeq(*p)

    def __repr__(self):
        return "sorted(%r)" % (self.base,)


class TrimSeq(Seq):
    """[value(var) for var in 0..n] with the trailing run of dropped cases cut off, dropped
    elements elsewhere replaced by `fill`: the longest prefix that ends in a kept element"""
    __slots__ = ("m", "bv", "keep", "drop", "fill", "n")

    def __init__(self, m, bv, keep, drop, fill):
        self.m, self.bv, self.keep, self.drop, self.fill = P(m), bv, keep, drop, fill
        self.n = sym("lastkeep", (self.m, bv, tuple(l for l, _ in keep)), "usize")

    def parts(self):
        return (self.m, self.bv, self.keep, self.drop, self.fill)

    def rebuilt(self, p):
        return trimseq(p[0], self.bv, p[2], p[3], p[4])

    def __repr__(self):
        return "trim[%r | %r -> %r for %s<%s]" % (self.keep, self.drop, self.fill, self.bv, self.m)


def trimseq(m, var, keep, drop, fill):
    bv, k, d = bind(var, keep, drop)
    return TrimSeq(m, bv, k, d, fill)


# ---------------------------------------------------------------- iterators
class Src(Val):
    """an indexed source: n items, item k may be computed, skipped (filter) or stop the sequence"""
    __slots__ = ("kind", "args")

    def __init__(self, kind, args):
        self.kind, self.args = kind, tuple(args)

    def parts(self):
        return (self.kind, self.args)

    def rebuilt(self, p):
        return Src(*p)

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join(map(repr, self.args)))


class IterV(Val):
    __slots__ = ("src", "pos", "back")

    def __init__(self, src, pos=ZERO, back=ZERO):
        self.src, self.pos, self.back = src, P(pos), P(back)

    def parts(self):
        return (self.src, self.pos, self.back)

    def rebuilt(self, p):
        return IterV(*p)

    def __repr__(self):
        return "Iter<%r@%r%s>" % (self.src, self.pos, "" if not self.back.t else "-%r" % self.back)


# ---------------------------------------------------------------- merging
def merge_cases(cases, types=None):
    """one value equal to value_i under the (exhaustive, disjoint) literals_i"""
    cases = tuple(cases)
    if len(cases) == 1:
        return cases[0][1]
    vs = [v for _, v in cases]
    if all(v == vs[0] for v in vs[1:]):
        return vs[0]
    if all(isinstance(v, Poly) for v in vs):
        return ite(cases)
    if types is not None and any(isinstance(v, SymV) for v in vs):
        vs = [force(v, types) for v in vs]
        cases = tuple((l, v) for (l, _), v in zip(cases, vs))
        if all(v == vs[0] for v in vs[1:]):
            return vs[0]
        if all(isinstance(v, Poly) for v in vs):
            return ite(cases)
    v0 = vs[0]
    if all(isinstance(v, AdtV) and v.path == v0.path and v.variant == v0.variant for v in vs):
        return AdtV(v0.path, v0.variant, [merge_cases([(l, v.fields[i]) for l, v in cases], types) for i in range(len(v0.fields))])
    if all(isinstance(v, TupV) for v in vs):
        return TupV([merge_cases([(l, v.fields[i]) for l, v in cases], types) for i in range(len(v0.fields))])
    raise Undecided("values of different shapes joined")


# ---------------------------------------------------------------- substitution of sequences
T.Subst.seqs = None
_old_atom = T.Subst.atom


def _atom(self, a):
    if self.seqs is not None and a.kind in ("x", "len"):
        r = self.m.get(a)
        if r is None:
            v = key_value(self, a.args[0])
            if v is not None:
                if isinstance(v, SymV) and getattr(self, "types", None) is not None:
                    v = force(v, self.types)
                if a.kind == "len":
                    return v.n
                if isinstance(v, Poly):
                    return v
                raise Undecided("substituted input is not a number: %r" % (v,))
    return _old_atom(self, a)


T.Subst.atom = _atom
_old_poly = T.Subst.poly


def _poly(self, p):
    if self.seqs is None:
        return _old_poly(self, p)
    r = self.memo.get(p)
    if r is None:
        r = ZERO
        for m, c in p.t:
            x = P(c)
            for a, e in m:
                y = self.atom(a)
                x = x * (y ** e if e > 0 else inv_poly(y) ** (-e))
            r = r + x
        self.memo[p] = r
    return r


T.Subst.poly = _poly


def key_value(S, key):
    """the value that replaces the input `key` under S.seqs, or None if it is unaffected"""
    if not isinstance(key, tuple) or not key:
        return None
    v = S.seqs.get(key)
    if v is not None:
        return v
    if key[0] == "el":
        s = key_value(S, key[1])
        if s is None:
            return None
        return pure_get(s, S.any(key[2]), getattr(S, "facts", None), getattr(S, "types", None))
    if key[0] == "f":
        s = key_value(S, key[1])
        if s is None:
            return None
        if isinstance(s, SymV):
            s = expand_sym(s, S.types)
        return s.fields[key[2]]
    return None


def seq_subst(x, seqs, m=None, facts=None, types=None):
    S = Subst(m or {})
    S.seqs = seqs
    S.facts = facts
    S.types = types
    S.keys = set(m or {})
    return S.any(x)


# ---------------------------------------------------------------- typed expansion of inputs
class Types:
    """the driver's type table"""

    def __init__(self, prog):
        self.T = prog["types"]
        self.adts = prog["adts"]
        self.idx = {}
        for i, t in enumerate(self.T):
            self.idx.setdefault(repr(t), i)

    def get(self, i):
        return self.T[i]

    def name(self, i):
        t = self.T[i]
        k = t["k"]
        if k in ("int", "uint", "float", "param"):
            return t["name"]
        if k == "adt":
            return t["path"]
        return k


VECLIKE = {"std::vec::Vec", "alloc::vec::Vec"}
BOXLIKE = {"std::boxed::Box", "alloc::boxed::Box", "std::mem::MaybeUninit", "std::mem::ManuallyDrop"}


def int_sort(name):
    return "int" if name in ("i64", "isize", "i128") else name


def subst_ty(types, i, params, args):
    """instantiate the parameters of an adt's field type"""
    t = types.T[i]
    k = t["k"]
    if k == "param":
        for p, a in zip(params, args):
            if p == t["name"]:
                return a
        return i
    if k == "adt":
        na = [subst_ty(types, a, params, args) if isinstance(a, int) else a for a in t["args"]]
        if na == t["args"]:
            return i
        nt = dict(t, args=na)
    elif k in ("ref", "rawptr", "slice"):
        e = subst_ty(types, t["e"], params, args)
        if e == t["e"]:
            return i
        nt = dict(t, e=e)
    elif k == "array":
        e = subst_ty(types, t["e"], params, args)
        if e == t["e"]:
            return i
        nt = dict(t, e=e)
    elif k == "tuple":
        es = [subst_ty(types, e, params, args) for e in t["es"]]
        if es == t["es"]:
            return i
        nt = dict(t, es=es)
    else:
        return i
    key = repr(nt)
    j = types.idx.get(key)
    if j is None:
        j = len(types.T)
        types.T.append(nt)
        types.idx[key] = j
    return j


def expand_sym(v, types):
    """one level of structure of an input, or the input itself if it cannot be looked into"""
    if v.ty is None:
        return v
    t = types.T[v.ty]
    k = t["k"]
    if k in ("int", "uint"):
        return P(atom("x", (v.key,), int_sort(t["name"])))
    if k == "float":
        return P(atom("x", (v.key,), t["name"]))
    if k == "param":
        return P(atom("x", (v.key,), t["name"])) if t["name"] in FIELD_SORTS else v
    if k == "bool":
        return ("lit", ("b", ("x", v.key), True))
    if k == "tuple":
        return TupV([SymV(("f", v.key, i), e) for i, e in enumerate(t["es"])])
    if k in ("slice", "array"):
        if k == "array" and isinstance(t.get("n"), int):
            return SymSeq(v.key, t["e"], P(t["n"]))
        return SymSeq(v.key, t["e"], P(atom("len", (v.key,), "usize")))
    if k == "adt":
        p = t["path"]
        if p in VECLIKE:
            return SymSeq(v.key, t["args"][0], P(atom("len", (v.key,), "usize")))
        if p in BOXLIKE:
            return expand_sym(SymV(v.key, t["args"][0]), types)
        a = types.adts.get(p)
        if a and a["kind"] == "struct":
            args = t["args"]
            fs = a["variants"][0]["fields"]
            return AdtV(p, 0, [SymV(("f", v.key, i), subst_ty(types, f["ty"], a["params"], args)) for i, f in enumerate(fs)])
    return v


def force(v, types):
    while isinstance(v, SymV):
        w = expand_sym(v, types)
        if w is v:
            return v
        v = w
    return v


# ---------------------------------------------------------------- pure element access
def solve_index(vars, idx, i, facts):
    """find vars with idx(vars) == i.  Returns (mapping, conditions) where the conditions are
    literals saying that the solution is in range, or None when no form is recognised; a residual
    equation that cannot hold shows as a false literal"""
    E = idx - i
    conds = []
    m = {}

    def go(E, vs):
        # returns True on success
        E = T.subst(E, m)
        vs = [v for v in vs if v[0] not in m]
        occ = [v for v in vs if occurs(v[0], E)]
        if len(occ) != len(vs):
            return False
        if not vs:
            conds.append(norm_lit(("eq", E)))
            return True
        # mixed radix: E = A*d + B with |B| < d
        cand = set()
        for mo, _ in E.t:
            if len(mo) > 1:
                for a, e in mo:
                    if e > 0 and a.sort in INT_BOUNDS and a not in [v[0] for v in vs]:
                        cand.add(a)
        if facts is not None:
            F = facts
            for v, n in vs:
                F2 = F.add(("ge", P(v))) if F is not None else None
                F = F2.add(("ge", P(n) - P(v) - 1)) if F2 is not None else None
            if F is not None:
                for d in sorted(cand, key=lambda a: a.s):
                    A, B = split_by(E, d)
                    if not A.t:
                        continue
                    for k in (0, 1, -1):
                        B2, A2 = B + k * P(d), A - k
                        if F.decide(("ge", P(d) - 1 - B2)) and F.decide(("ge", P(d) - 1 + B2)):
                            va = [v for v in vs if occurs(v[0], A2)]
                            vb = [v for v in vs if v not in va]
                            if any(occurs(v[0], B2) for v in va):
                                continue
                            return go(A2, va) and go(B2, vb)
        if len(vs) == 1:
            v, n = vs[0]
            li = E.linear_in(v)
            if li and li[0].const() in (1, -1):
                sol = -li[1] * li[0].const()
                m[v] = sol
                return True
            if li and li[0].t and facts is not None:
                q = div_exact(-li[1], li[0])
                if q is not None and facts.decide(("ne", li[0])) :
                    m[v] = q
                    return True
        return False

    if not go(E, list(vars)):
        return None
    for v, n in vars:
        if v not in m:
            return None
        nn = T.subst(P(n), m)
        conds.append(("ge", m[v]))
        conds.append(("ge", nn - m[v] - 1))
    return m, conds


def poly_rank(bv, body, n):
    """the polynomial whose terms are compared by their rank, or None"""
    a = P(body).single()
    if a is None or a.kind != "rank":
        return None
    t = term_atom(a.args[0].single())
    if t is None or t[1] != P(bv) or t[2] != 1 or n is not None and n != P(atom("len", (("terms", t[0]),), "usize")):
        return None
    return t[0]


def sorted_pos(s, i):
    """the position in the base of element i of a sorted sequence"""
    if isinstance(s.base, SymSeq):
        # the largest term of a polynomial is the leading one
        for sign, j in ((1, s.n - 1), (-1, ZERO)):
            p = poly_rank(s.order[0], P(s.order[1]) * sign, s.n) if j == i else None
            if p is not None:
                return lead(p)
    return P(sym("from", (s, i), "usize"))


def pure_get(s, i, facts=None, types=None, depth=0):
    """element i of s without forking: undecided questions become if-then-else on numbers"""
    i = P(i)
    F = facts if facts is not None else Facts()
    if isinstance(s, SymSeq):
        v = SymV(("el", s.key, i), s.ety)
        return force(v, types) if types is not None else v
    if isinstance(s, LitSeq):
        c = i.const()
        if c is not None and 0 <= c < len(s.items):
            return s.items[int(c)]
        cs = []
        rest = []
        for k, v in enumerate(s.items):
            d = F.decide(("eq", i - k))
            if d is True:
                return v
            if d is False:
                continue
            cs.append((tuple(rest) + (norm_lit(("eq", i - k)),), v))
            rest.append(norm_lit(("ne", i - k)))
        if not cs:
            raise Undecided("index outside a literal sequence")
        return merge_cases(cs, types)
    if isinstance(s, CompSeq):
        cs = []
        S = Subst({s.bv: i})
        for l, v in s.cases:
            ls, bad = [], False
            for x in l:
                x = norm_lit(S.any(x))
                d = F.decide(x)
                if d is False:
                    bad = True
                    break
                if d is None:
                    ls.append(x)
            if not bad:
                cs.append((tuple(ls), S.any(v)))
                if not ls:
                    break
        if not cs:
            raise Undecided("no case of a comprehension applies")
        return merge_cases(cs, types)
    if isinstance(s, CatSeq):
        off = ZERO
        cs, rest = [], []
        for g in s.segs:
            l = ("ge", off + g.n - i - 1)
            d = F.decide(l)
            if d is True:
                cs.append((tuple(rest), pure_get(g, i - off, facts, types)))
                return merge_cases(cs, types)
            if d is None:
                cs.append((tuple(rest) + (l,), pure_get(g, i - off, facts, types)))
                rest.append(neg(l))
            off = off + g.n
        return merge_cases(cs, types)
    if isinstance(s, SubSeq):
        return pure_get(s.base, s.start + i, facts, types)
    if isinstance(s, RemSeq):
        l = ("ge", s.idx - i - 1)
        d = F.decide(l)
        if d is True:
            return pure_get(s.base, i, facts, types)
        if d is False:
            return pure_get(s.base, i + 1, facts, types)
        return merge_cases([((l,), pure_get(s.base, i, facts, types)), ((neg(l),), pure_get(s.base, i + 1, facts, types))], types)
    if isinstance(s, UpdSeq):
        l = norm_lit(("eq", s.idx - i))
        d = F.decide(l)
        if d is True:
            return s.val
        if d is False:
            return pure_get(s.base, i, facts, types)
        return merge_cases([((l,), s.val), ((neg(l),), pure_get(s.base, i, facts, types))], types)
    if isinstance(s, MUpdSeq):
        sol = solve_index(s.vars, s.idx, i, facts)
        if sol is None:
            raise Undecided("cannot resolve an index of a bulk update: %r = %r" % (s.idx, i))
        m, conds = sol
        und = []
        for c in conds:
            d = F.decide(c)
            if d is False:
                return pure_get(s.base, i, facts, types)
            if d is None:
                und.append(norm_lit(c))
        S = Subst(m)
        hit = []
        for l, v in s.cases:
            ls, bad = [], False
            for x in l:
                x = norm_lit(S.any(x))
                d = F.decide(x)
                if d is False:
                    bad = True
                    break
                if d is None:
                    ls.append(x)
            if not bad:
                hit.append((tuple(ls), pure_get(s.base, i, facts, types) if v == KEEP else S.any(v)))
        if not und:
            return merge_cases(hit, types)
        base = pure_get(s.base, i, facts, types)
        out = [(tuple(und) + l, v) for l, v in hit]
        pre = []
        for c in und:
            out.append((tuple(pre) + (norm_lit(neg(c)),), base))
            pre.append(c)
        return merge_cases(out, types)
    if isinstance(s, TrimSeq):
        S = Subst({s.bv: i})
        cs = [(S.any(l), S.any(v)) for l, v in s.keep] + [(S.any(l), s.fill) for l in s.drop]
        out = []
        for l, v in cs:
            ls, bad = [], False
            for x in l:
                x = norm_lit(x)
                d = F.decide(x)
                if d is False:
                    bad = True
                    break
                if d is None:
                    ls.append(x)
            if not bad:
                out.append((tuple(ls), v))
                if not ls:
                    break
        return merge_cases(out, types)
    if isinstance(s, SortSeq) and s.order != ("set",):
        return pure_get(s.base, sorted_pos(s, i), F, types)
    if isinstance(s, (FiltSeq, SortSeq)):
        return OpaqueV("elem", (s, i))
    raise Undecided("element of %s" % type(s).__name__)
