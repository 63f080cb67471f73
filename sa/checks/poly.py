"""P01-P12: terms, polynomials, division and Groebner bases.

The analysis runs the typed MIR with two types abstracted:

* a multidegree is the monomial it stands for, a nonzero element of the commutative ring (addition of
  exponents is the product of monomials; the operations on multidegrees are replaced by that meaning, which
  M01-M05 establish for their code),
* where a polynomial is only used through its operations (`ring`), it is the ring element it denotes, the sum
  of coefficient times monomial over its terms, and the operations proved for the term lists (P01-P03 on the
  code that looks at the terms) are replaced by that meaning.
"""
from .common import *
from ..check import Suite
from ..models import deref, some, none, m_is_empty
from ..witness import refute, W, degrees
from ..terms import Atom
from ..loops import ids
from ..replay import value_at
from ..witness import inexact
from .. import polyval
from .elim import refuted


# ------------------------------------------------------------------------------------- abstraction
def aprog(prog, ring=False):
    """the program with multidegrees (and polynomials) as numbers"""
    key = "_ring" if ring else "_mono"
    if getattr(prog, key, None) is not None:
        return getattr(prog, key)
    q = Prog.__new__(Prog)
    q.__dict__.update({k: v for k, v in prog.__dict__.items() if not k.startswith("_ring") and not k.startswith("_mono")})
    T = []
    for t in prog.d["types"]:
        n = last(t.get("path")) if t["k"] == "adt" else None
        if n == "MultiDegree":
            t = {"k": "param", "name": "Mono", "was": n}
        elif n == "Polynomial" and ring:
            t = {"k": "param", "name": "Pol", "was": n, "args": t["args"], "path": t["path"]}
        T.append(t)
    q.d = dict(prog.d, types=T)
    q.types = Types(q.d)
    q.ring = Ring(q) if ring else None
    q.exp_ty = next((i for i, t in enumerate(T) if t.get("name") == "u8"), None)
    setattr(prog, key, q)
    return q


class Ring:
    """polynomials as ring elements: the list of terms of p is the sequence named ("terms", p)"""

    def __init__(self, prog):
        self.prog = prog
        self.types = prog.types
        self.tty = None
        for i, t in enumerate(self.types.T):
            if t["k"] == "adt" and last(t["path"]) == "Term" and self.types.T[t["args"][0]].get("name") == "F":
                self.tty = i
                break
        self.raw = []           # (facts, sequence): lists of terms made into polynomials

    def is_poly(self, path):
        return last(path) == "Polynomial"

    def seq(self, p):
        if p == ZERO:
            return LitSeq(())
        k = ("terms", p)
        return SymSeq(k, self.tty, P(atom("len", (k,), "usize")))

    def open(self, ctx, p):
        return self.seq(p)

    def close(self, ctx, s):
        if isinstance(s, SymV):
            s = ctx.force(s)
        return unview(den(self.types, s, ctx.facts))

    def made(self, ctx, s):
        """the polynomial with this list of terms"""
        if isinstance(s, SymV):
            s = ctx.force(s)
        if isinstance(s, SymSeq) and isinstance(s.key, tuple) and s.key[0] == "terms":
            return s.key[1]
        if isinstance(s, LitSeq) and not s.items:
            return ZERO
        return AdtV(next(t["path"] for t in self.types.T if t.get("was") == "Polynomial"), 0, (s,))

    def settle(self, ctx):
        """only the values of polynomials matter from here on"""
        def go(v):
            if isinstance(v, AdtV) and last(v.path) == "Polynomial":
                return self.close(ctx, v.fields[0])
            if isinstance(v, AdtV):
                fs = [go(x) for x in v.fields]
                return AdtV(v.path, v.variant, fs) if any(a is not b for a, b in zip(fs, v.fields)) else v
            if isinstance(v, TupV):
                fs = [go(x) for x in v.fields]
                return TupV(fs) if any(a is not b for a, b in zip(fs, v.fields)) else v
            if isinstance(v, LitSeq):
                fs = [go(x) for x in v.items]
                return LitSeq(fs) if any(a is not b for a, b in zip(fs, v.items)) else v
            if isinstance(v, UpdSeq):
                b, x = go(v.base), go(v.val)
                return UpdSeq(b, v.idx, x) if b is not v.base or x is not v.val else v
            return v
        for r, v in list(ctx.store.items()):
            w = go(v)
            if w is not v:
                ctx.store[r] = w


def unview(p, F=None):
    """sums over the terms of a polynomial are the polynomial"""
    for a in sorted(p.atoms(), key=lambda a: a.s):
        if a.kind != "sum":
            continue
        lo, hi, bv, body = a.args
        h = next((x for x in sorted(hi.atoms(), key=lambda x: x.s) if x.kind == "len" and isinstance(x.args[0], tuple) and x.args[0][0] == "terms"), None)
        if h is None:
            continue
        k = h.args[0]
        el = ("el", k, P(bv))
        t = P(atom("x", (("f", el, 0),), "F")) * P(atom("x", (("f", el, 1),), "Mono"))
        for sh in (0, 1):
            b = subst(body, {bv: P(bv) - sh}) if sh else body
            q = b * inv_poly(t)
            if occurs(bv, q):
                continue
            # sum over [lo + sh, hi + sh)
            l, u = (lo + sh).const(), (hi + sh - P(h)).const()
            if l is None or u is None or l < 0 or u > 0 or l > 3 or u < -3:
                continue
            if (l or u) and (F is None or F.decide(("ge", P(h) - l + u)) is not True):
                continue
            v = q * k[1]
            for i in range(int(l)):
                v = v - subst(b, {bv: P(i)})
            for i in range(int(-u)):
                v = v - subst(b, {bv: P(h) - 1 - i})
            return unview(subst(p, {a: v}), F)
    return p


class Mode:
    """the suite with an abstracted program; put back afterwards"""

    def __init__(self, S, ring=False):
        self.S, self.ring = S, ring

    def __enter__(self):
        S = self.S
        self.old = S.prog, S.types, S.named, S.extra
        self.contracts = mono_contracts(S)
        if self.ring:
            self.contracts.update(ring_contracts(S))
        self.used = set()
        for k, f in list(self.contracts.items()):
            self.contracts[k] = self.recorded(k, f)
        S.prog = aprog(S.prog, self.ring)
        S.types = S.prog.types
        S.named = True
        return self

    def recorded(self, k, f):
        def g(ex, ctx, fn, args):
            self.used.add(k)
            return f(ex, ctx, fn, args)
        return g

    def __exit__(self, *a):
        self.S.prog, self.S.types, self.S.named, self.S.extra = self.old


def mono(ex, ctx, v):
    v = deref(ex, ctx, v)
    if not isinstance(v, Poly):
        raise Undecided("not a monomial: %r" % (v,))
    return v


def nonneg_exps(p):
    """is the monomial quotient known to be a monomial?"""
    if p == ONE:
        return True
    if len(p.t) != 1 or p.t[0][1] != 1:
        return None
    den = [(a, -e) for a, e in p.t[0][0] if e < 0 or a.kind == "inv"]
    num = {a: e for a, e in p.t[0][0] if e > 0 and a.kind != "inv"}
    if not den:
        return True
    if len(den) == 1:
        a, e = den[0]
        d = a.args[0].single() if a.kind == "inv" else a
        if abs(e) == 1 and d is not None:
            for n in num:
                if n.kind == "lcm" and P(d) in n.args:
                    return True
    return None


def divides_lit(b, a):
    """b divides a, as a literal on the quotient"""
    q = a * inv_poly(b)
    k = nonneg_exps(q)
    if k:
        return True
    return ("lit", ("b", ("nn", q), True))


def mono_contracts(S):
    out = {}

    def put(rs, f):
        for r in rs:
            out[r["key"]] = f
    one = lambda ex, ctx, fn, args: ONE
    put(find(S, "MultiDegree", None, "zero"), one)
    put(find(S, "MultiDegree", "Default", "default"), one)
    put(find(S, "MultiDegree", None, "is_zero"), lambda ex, ctx, fn, args: f_lit(req(mono(ex, ctx, args[0]), 1)))
    put(find(S, "MultiDegree", "Clone", "clone"), lambda ex, ctx, fn, args: mono(ex, ctx, args[0]))
    eq_ = lambda ex, ctx, fn, args: f_lit(req(mono(ex, ctx, args[0]), mono(ex, ctx, args[1])))
    put(find(S, "MultiDegree", "PartialEq", "eq"), eq_)
    out["<poly::mdeg::MultiDegree as std::cmp::PartialEq>::ne"] = lambda ex, ctx, fn, args: f_not(eq_(ex, ctx, fn, args))
    put(find(S, "MultiDegree", "Add", "add"), lambda ex, ctx, fn, args: mono(ex, ctx, args[0]) * mono(ex, ctx, args[1]))
    put(find(S, "MultiDegree", None, "is_succ"), lambda ex, ctx, fn, args: divides_lit(mono(ex, ctx, args[0]), mono(ex, ctx, args[1])))

    def csub(ex, ctx, fn, args):
        a, b = mono(ex, ctx, args[0]), mono(ex, ctx, args[1])
        f = divides_lit(b, a)
        if f is True or ctx.test(f):
            return some(a * inv_poly(b))
        return none()
    put(find(S, "MultiDegree", None, "checked_sub"), csub)

    def total(ex, ctx, fn, args):
        """the sum of the exponents; a sum that does not fit is a panic"""
        d = P(sym("tdeg", (mono(ex, ctx, args[0]),), "usize"))
        if not ctx.testl(("ge", 255 - d)):
            raise PanicEx("expect", "total degree overflow")
        return d
    put(find(S, "MultiDegree", None, "total_deg"), total)

    def var_(ex, ctx, fn, args):
        i, d = args
        if ctx.testl(("eq", d)):
            return ONE
        return P(sym("var", (i, d), "Mono"))
    put(find(S, "MultiDegree", None, "var"), var_)

    def order(ex, ctx, fn, args):
        a, b = (sym("rank", (mono(ex, ctx, x),), "int") for x in args)
        return ex.cmp3(ctx, P(a), P(b), "i64")
    out["poly::ord::MonomialOrder::cmp"] = order

    def lcm(ex, ctx, fn, args):
        (c, m), (d, k) = (term(ex, ctx, x) for x in args)
        if ctx.testl(req(c)) or ctx.testl(req(d)):
            return mkterm(ex, ZERO, ONE)
        a, b = sorted((m, k), key=repr)
        return mkterm(ex, ONE, m if a == b else P(sym("lcm", (a, b), "Mono")))
    put([r for r in find(S, "Computer", None, "monic_lcm")], lcm)
    return out


def ring_contracts(S):
    out = {}

    def put(rs, f):
        for r in rs:
            out[r["key"]] = f

    def val(ex, ctx, v):
        """the ring element a term, polynomial or scalar stands for"""
        v = deref(ex, ctx, v)
        if isinstance(v, AdtV) and last(v.path) == "Polynomial":
            s = ctx.force(v.fields[0])
            ctx.prog.ring.raw.append((ctx.facts, s))
            return ctx.prog.ring.close(ctx, s)
        if isinstance(v, AdtV):
            c, m = term(ex, ctx, v)
            return c * m
        if not isinstance(v, Poly):
            raise Undecided("not a ring element: %r" % (v,))
        return v
    put(find(S, "Polynomial", None, "zero") + find(S, "Polynomial", "Default", "default"), lambda ex, ctx, fn, args: ZERO)
    put(find(S, "Polynomial", None, "one"), lambda ex, ctx, fn, args: ONE)
    put(find(S, "Polynomial", None, "is_zero"), lambda ex, ctx, fn, args: f_lit(req(val(ex, ctx, args[0]))))
    put(find(S, "Polynomial", "Clone", "clone"), lambda ex, ctx, fn, args: deref(ex, ctx, args[0]))
    put(find(S, "Polynomial", "From", "from"), lambda ex, ctx, fn, args: val(ex, ctx, args[0]))
    isp = lambda r: kind_of(S, ret_type(S, r)) == "Polynomial"
    for tr, f in (("Add", lambda a, b: a + b), ("Sub", lambda a, b: a - b), ("Mul", lambda a, b: a * b)):
        g = lambda ex, ctx, fn, args, f=f: unview(f(val(ex, ctx, args[0]), val(ex, ctx, args[1])))
        put([r for ty in ("Polynomial", "Term") for r in find(S, ty, tr, tr.lower()) if isp(r)], g)
    put([r for r in find(S, "Polynomial", "Neg", "neg")], lambda ex, ctx, fn, args: -val(ex, ctx, args[0]))

    def div(ex, ctx, fn, args):
        a, b = val(ex, ctx, args[0]), val(ex, ctx, args[1])
        if ctx.testl(req(b)):
            raise Undecided("division by zero")
        return a * inv_poly(b)
    put([r for r in find(S, "Polynomial", "Div", "div")], div)
    for t in ("terms", "terms_mut"):
        for r in find(S, "Polynomial", None, t):
            out[r["key"]] = lambda ex, ctx, fn, args: ex.models.view_iter(ex, ctx, args[0]) if False else view(ex, ctx, args[0])
    return out


def view(ex, ctx, v):
    """an iterator over the terms of a polynomial"""
    while isinstance(v, RefV) and isinstance(ctx.load(v), RefV):
        v = ctx.load(v)
    if not isinstance(v, RefV):
        v = RefV(ctx.new_root("T", deref(ex, ctx, v)))
    s = ctx.load(v)
    if isinstance(s, AdtV) and last(s.path) == "Polynomial":
        return IterV(Src("ref", (v.ext(("f", 0)), ctx.force(s.fields[0]).n)))
    if not isinstance(s, Poly):
        raise Undecided("terms of %r" % (s,))
    s = ctx.prog.ring.open(ctx, s)
    return IterV(Src("ref", (v.ext(("view", 0)), s.n)))


def term(ex, ctx, v):
    v = deref(ex, ctx, v)
    if isinstance(v, AdtV) and last(v.path) == "Term":
        return ctx.force(v.fields[0]), mono(ex, ctx, v.fields[1])
    raise Undecided("not a term: %r" % (v,))


def mkterm(ex, c, m):
    p = next(p for p in ex.types.adts if last(p) == "Term")
    return AdtV(p, 0, (c, m))


# ------------------------------------------------------------------------------------- denotation
def tm(types, v):
    v = force(v, types)
    if isinstance(v, AdtV) and last(v.path) == "Term":
        c, m = force(v.fields[0], types), force(v.fields[1], types)
        if isinstance(c, Poly) and isinstance(m, Poly):
            return c, m
    raise Undecided("not a term: %r" % (v,))


def tval(types, v):
    c, m = tm(types, v)
    return c * m


DV = atom("q", ("den", 0), "usize")


def den(types, s, F):
    """the sum of coefficient times monomial over a sequence of terms"""
    if isinstance(s, LitSeq):
        r = ZERO
        for x in s.items:
            r = r + tval(types, x)
        return r
    if isinstance(s, CatSeq):
        r = ZERO
        for g in s.segs:
            r = r + den(types, g, F)
        return r
    if isinstance(s, UpdSeq):
        return den(types, s.base, F) - tval(types, pure_get(s.base, s.idx, F, types)) + tval(types, s.val)
    if isinstance(s, RemSeq):
        return den(types, s.base, F) - tval(types, pure_get(s.base, s.idx, F, types))
    if isinstance(s, SortSeq) and s.order != ("set",):
        return den(types, s.base, F)
    if isinstance(s, SubSeq):
        if s.start == ZERO and (s.base.n - s.n).const() is not None and (s.base.n - s.n).const() <= 4:
            r = den(types, s.base, F)
            for k in range(int((s.base.n - s.n).const())):
                r = r - tval(types, pure_get(s.base, s.base.n - 1 - k, F, types))
            return r
        if (s.start + s.n) == s.base.n and s.start.const() is not None and s.start.const() <= 4:
            r = den(types, s.base, F)
            for k in range(int(s.start.const())):
                r = r - tval(types, pure_get(s.base, P(k), F, types))
            return r
    if isinstance(s, SymSeq) and isinstance(s.key, tuple) and s.key[0] == "terms":
        return s.key[1]
    if isinstance(s, FiltSeq):
        cs = [(c, tval(types, v)) for c, v in s.cases]
        cs = tuple((c, v) for c, v in cs) + tuple((c, ZERO) for c in s.drop)
        v = ite(cs) if any(v != cs[0][1] for _, v in cs) else cs[0][1]
        return Sum(ZERO, P(s.m), s.bv, v)
    if isinstance(s, Seq):
        G = F.add_all([("ge", P(DV)), ("ge", s.n - 1 - P(DV))]) or F
        e = pure_get(s, P(DV), G, types)
        return Sum(ZERO, s.n, DV, tval(types, e))
    raise Undecided("not a list of terms: %r" % (s,))


def pol_seq(S, v):
    v = force(v, S.types)
    if isinstance(v, AdtV) and last(v.path) == "Polynomial":
        s = force(v.fields[0], S.types)
        if isinstance(s, Seq):
            return s
    raise Undecided("not a polynomial: %r" % (v,))


def D(S, v, F):
    """the ring element a term, polynomial or scalar denotes"""
    v = force(v, S.types)
    if isinstance(v, Poly):
        return v
    if isinstance(v, AdtV) and last(v.path) == "Term":
        return tval(S.types, v)
    return den(S.types, pol_seq(S, v), F)


# ------------------------------------------------------------------------------------- inputs
A_, B_ = atom("q", ("wf", 0), "usize"), atom("q", ("wf", 1), "usize")


def clean(F, s, types):
    """F with: no coefficient of the list is zero and its monomials are distinct"""
    F = F.add_forall([(A_, ZERO, s.n)], [[("rne", tm(types, pure_get(s, P(A_), F, types))[0])]])
    x, y = (tm(types, pure_get(s, P(v), F, types))[1] for v in (A_, B_))
    F = F.add_forall([(B_, ZERO, s.n), (A_, ZERO, P(B_))], [[rne(x, y)]])
    return F


def strip(S, ty):
    t = S.types.T[ty]
    while t["k"] == "ref":
        t = S.types.T[t["e"]]
        ty = None
    return t


def base_ty(S, ty):
    while S.types.T[ty]["k"] == "ref":
        ty = S.types.T[ty]["e"]
    return ty


def kind_of(S, ty):
    """Term, Polynomial, F, ... of a parameter type"""
    t = S.types.T[base_ty(S, ty)]
    if t["k"] == "adt":
        return last(t["path"])
    return t.get("was") or t.get("name") or t["k"]


def inputs_of(S, r, nonzero=False):
    """facts about the inputs (well formed polynomials), and the inputs"""
    F, ins = Facts(), []
    for i, ty in enumerate(params(S, r)):
        v = SymV(("in", "a%d" % i), base_ty(S, ty))
        k = kind_of(S, ty)
        x = force(v, S.types)
        if k == "Polynomial" and isinstance(x, AdtV):
            F = clean(F, pol_seq(S, x), S.types)
        if k == "Term" and nonzero:
            F = F.add(("rne", tm(S.types, x)[0]))
        ins.append(x)
    return F, ins


# ------------------------------------------------------------------------------------- obligations
def wterms(w, types, v):
    """the terms of a polynomial in a valuation: list of (coefficient, monomial)"""
    if isinstance(v, AdtV):
        v = force(v.fields[0], types)
    return [wterm(x) for x in w.seq(v)]


def wterm(x):
    if isinstance(x, tuple) and len(x) == 4 and isinstance(x[0], str):
        return x[2], x[3]
    raise Undecided("valuation of a term: %r" % (x,))


def same(S, fn, what, F, got, want, vals=(), pred=None):
    """the two ring elements are equal"""
    ok = False
    try:
        ok = zero_in(F, got - want)
    except (Undecided, RecursionError):
        ok = False
    return S.goal(fn, what, F, True if ok else L(req(got, want)), pred=(vals, pred) if pred else None, tries=2500)


def zero_in(F, d, depth=0):
    """is the ring element zero under the facts?"""
    d = unview(merge_sums(d), F)
    d = emptied(F, d)
    if not d.t:
        return True
    if depth > 6:
        return False
    # equalities between monomials or coefficients as rewriting rules, one at a time
    ats = d.atoms()
    for l in sorted(F.lits, key=show_lit):
        if l[0] not in ("req", "eq"):
            continue
        for a in sorted(l[1].atoms(), key=lambda a: -len(a.s)):
            if a not in ats and not any(a in fv(x) for x in ats):
                continue
            li = l[1].linear_in(a)
            if not li or occurs(a, li[1]) or occurs(a, li[0]):
                continue
            if not (li[0].const() or l[0] == "req" and F.nonzero(li[0])):
                continue
            e = subst(d, {a: -li[1] * inv_poly(li[0])})
            if e != d and zero_in(Facts(F.lits - {l}, F.foralls), e, depth + 1):
                return True
    return F.decide(req(d)) is True


def emptied(F, d):
    """sums over an empty range are zero, and so is a polynomial without terms"""
    m = {}
    for a in d.atoms():
        if a.kind == "sum" and F.decide(("ge", a.args[0] - a.args[1])) is True:
            m[a] = ZERO
        elif a.kind == "x" and a.sort == "Pol":
            n = atom("len", (("terms", P(a)),), "usize")
            if F.decide(("ge", -P(n))) is True:
                m[a] = ZERO
    return subst(d, m) if m else d


def perm_of(s):
    """the list itself, for a list read through a rearrangement of its positions"""
    if isinstance(s, CompSeq) and len(s.cases) == 1:
        fs = [a for a in fv(s.cases[0][1]) if a.kind == "from" and a.args[1] == P(s.bv)]
        if len(fs) == 1 and isinstance(fs[0].args[0], SortSeq) and fs[0].args[0].order != ("set",):
            v = Subst({fs[0]: P(DV)}).any(s.cases[0][1])
            if not occurs(s.bv, v) and fs[0].args[0].n == s.n:
                return CompSeq(s.n, DV, ((s.cases[0][0], v),))
    return None


def moved(s, types, F):
    """the update of a list whose last element was moved into the place of another (or was the other)"""
    if isinstance(s, SubSeq) and isinstance(s.base, UpdSeq):
        b = s.base
        try:
            if s.start == ZERO and s.n == b.n - 1:
                if F.decide(("eq", b.idx - b.n + 1)) is True or tm(types, b.val) == tm(types, pure_get(b.base, b.n - 1, F, types)):
                    return b
        except Undecided:
            pass
    return None


def part_of(s, types, F, removed=True):
    """a list with the same terms, or more, in some order"""
    while True:
        b = moved(s, types, F)
        if b is not None:
            if not removed:
                return s
            s = b.base
        elif isinstance(s, SortSeq) and s.order != ("set",) or isinstance(s, SubSeq):
            s = s.base
        elif isinstance(s, RemSeq):
            if not removed:
                return s
            s = s.base
        else:
            p = perm_of(s)
            if p is None:
                return s
            s = p


def every(types, s, F, f, cover=()):
    """f(coefficient, monomial, position) for every term of the list"""
    if isinstance(s, RemSeq):
        return every(types, s.base, F, lambda c, m, i: OR(L(("eq", i - s.idx)) if i is not None else False, f(c, m, None)))
    b = moved(s, types, F)
    if b is not None:
        return every(types, b.base, F, lambda c, m, i: OR(L(("eq", i - b.idx)) if i is not None else False, f(c, m, None)))
    s = part_of(s, types, F, False)
    if isinstance(s, RemSeq) or moved(s, types, F) is not None:
        return every(types, s, F, f)
    if isinstance(s, LitSeq):
        return AND(*[f(*tm(types, x), P(i)) for i, x in enumerate(s.items)]) if s.items else True
    if isinstance(s, CatSeq):
        out, off = [], ZERO
        for g in s.segs:
            out.append(every(types, g, F, lambda c, m, i, off=off: f(c, m, i + off)))
            off = off + g.n
        return AND(*out)
    if isinstance(s, FiltSeq):
        return ALL(s.bv, ZERO, P(s.m), AND(*[OR(*[f_not(L(l)) for l in c], f(*tm(types, v), None)) for c, v in s.cases]))
    if isinstance(s, CompSeq):
        return ALL(s.bv, ZERO, s.n, AND(*[OR(*[f_not(L(l)) for l in c], f(*tm(types, v), P(s.bv))) for c, v in s.cases]))
    if isinstance(s, UpdSeq):
        return AND(every(types, s.base, F, lambda c, m, i: OR(L(("eq", i - s.idx)) if i is not None else False, f(c, m, i))), f(*tm(types, s.val), s.idx))
    x = var("v")
    G = F.add_all([("ge", P(x)), ("ge", s.n - 1 - P(x))])
    if G is None:
        return True
    return ALL(x, ZERO, s.n, f(*tm(types, pure_get(s, P(x), G, types)), P(x)))


def distinct(types, s, F):
    """no two terms of the list have the same monomial"""
    s = part_of(s, types, F)
    n = s.n
    mon = lambda v: tm(types, v)[1]
    if isinstance(s, LitSeq):
        ts = [mon(x) for x in s.items]
        return AND(*([L(rne(a, b)) for i, a in enumerate(ts) for b in ts[:i]] or [True]))
    if isinstance(s, CatSeq):
        out = [distinct(types, g, F) for g in s.segs]
        for i, g in enumerate(s.segs):
            for h in s.segs[:i]:
                out.append(every(types, g, F, lambda c, m, k, h=h: every(types, h, F, lambda d, u, l: L(rne(m, u)))))
        return AND(*out)
    if isinstance(s, UpdSeq):
        try:
            if F.decide(req(mon(pure_get(s.base, s.idx, F, types)), mon(s.val))) is True:
                return distinct(types, s.base, F)
        except Undecided:
            pass
        m = mon(s.val)
        return AND(distinct(types, s.base, F), every(types, s.base, F, lambda c, u, i: OR(L(("eq", i - s.idx)) if i is not None else False, L(rne(m, u)))))
    x, y = var("v1"), var("v2")
    if isinstance(s, FiltSeq):
        at = lambda z, v: mon(Subst({s.bv: P(z)}).any(v))
        return ALL(y, ZERO, P(s.m), ALL(x, ZERO, P(y), AND(*[L(rne(at(x, v), at(y, u))) for _, v in s.cases for _, u in s.cases])))
    G = F.add_all([("ge", P(x)), ("ge", P(y) - P(x) - 1), ("ge", n - 1 - P(y))])
    if G is None:
        return True
    at = lambda z: mon(pure_get(s, P(z), G, types))
    return ALL(y, ZERO, n, ALL(x, ZERO, P(y), L(rne(at(x), at(y)))))


def well_formed(S, fn, F, s, ctx=""):
    """no term of the list has coefficient zero and no two have the same monomial"""
    types = S.types
    try:
        f0 = every(types, s, F, lambda c, m, i: L(("rne", c)))
        f1 = distinct(types, s, F)
    except Undecided as e:
        S.undecided(fn, "well formed%s" % ctx, str(e))
        return
    S.goal(fn, "no term has coefficient zero%s" % ctx, F, f0, pred=((s,), lambda w: all(c != 0 for c, _ in wterms(w, types, s))), tries=2500)
    S.goal(fn, "no two terms have the same monomial%s" % ctx, F, f1,
           pred=((s,), lambda w: len({m for _, m in wterms(w, types, s)}) == len(wterms(w, types, s))), tries=2500)


POLYOPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b, "Div": lambda a, b: a * inv_poly(b)}
HEAVY = "Polynomial"


def ring_fn(S, r):
    """functions of two polynomials are analysed over ring elements, the others over lists of terms"""
    return sum(kind_of(S, t) == "Polynomial" for t in params(S, r)) > 1 or last(r.get("self_ty") or "") == "Computer"


def operators(S, tys, names=("Add", "Sub", "Mul", "Div", "Neg")):
    for ty in tys:
        for tr in names:
            for r in find(S, ty, tr, tr.lower()):
                yield tr, r


def outcomes(S, M, r, F, tag=None, setup=None, then=None):
    C = dict(M.contracts)
    C.pop(r["key"], None)
    return S.explore(label(r), C, root=r, facts=F, tag=tag, setup=setup, then=then)


def exact(x):
    return Fraction(x) if isinstance(x, int) else x


def wden(w, S, v):
    v = force(v, S.types)
    if isinstance(v, AdtV) and last(v.path) == "Polynomial":
        return sum((c * m for c, m in wterms(w, S.types, v)), 0)
    if isinstance(v, AdtV):
        return w.num(tval(S.types, v))
    return w.num(v)


def op_value(S, M, tr, r):
    """the operator denotes the ring operation"""
    F, ins = inputs_of(S, r)
    fn = label(r)
    if tr == "Div":
        F = F.add(("rne", ins[1]))
    outs = outcomes(S, M, r, F)
    for o in outs or ():
        if o.kind != "ret":
            S.reach(fn, "does not panic", o.facts, "panics: %s" % o.msg)
            continue
        ds = [D(S, x, o.facts) for x in ins]
        want = -ds[0] if tr == "Neg" else POLYOPS[tr](*ds)
        try:
            got = D(S, o.val, o.facts)
        except Undecided as e:
            S.undecided(fn, "denotes the ring operation", str(e))
            continue
        f = {"Neg": lambda w, x: -x, "Add": lambda w, x, y: x + y, "Sub": lambda w, x, y: x - y, "Mul": lambda w, x, y: x * y,
             "Div": lambda w, x, y: Fraction(x) / y if isinstance(x, int) else x / y}[tr]
        pred = None if M.ring else lambda w, o=o, f=f: wden(w, S, o.val) == f(w, *[exact(wden(w, S, x)) for x in ins])
        same(S, fn, "denotes the ring operation", o.facts, got, want, (o.val,) + tuple(ins), pred)


def p02(S):
    with Mode(S) as M:
        n = 0
        for tr, r in operators(S, ("Term",)):
            ks = [kind_of(S, t) for t in params(S, r)]
            if all(k == "Term" for k in ks):
                n += 1
                op_value(S, M, tr, r)
                if kind_of(S, ret_type(S, r)) == "Term":
                    shape_of_term(S, M, tr, r)
        for tr in ("Add", "Sub", "Mul", "Neg"):
            the(S, "Term", tr, tr.lower())


def shape_of_term(S, M, tr, r):
    """products and negations of nonzero terms: the coefficient and the exponents"""
    F, ins = inputs_of(S, r, nonzero=True)
    for o in outcomes(S, M, r, F) or ():
        if o.kind == "ret":
            c, m = tm(S.types, o.val)
            ts = [tm(S.types, x) for x in ins]
            wc, wm = (-ts[0][0], ts[0][1]) if tr == "Neg" else (ts[0][0] * ts[1][0], ts[0][1] * ts[1][1])
            S.goal(label(r), "coefficient", o.facts, L(req(c, wc)))
            S.goal(label(r), "exponents", o.facts, L(req(m, wm)))


def p03(S):
    seen = set()
    for ring in (False, True):
        with Mode(S, ring) as M:
            for tr, r in operators(S, ("Polynomial", "Term")):
                ks = [kind_of(S, t) for t in params(S, r)]
                if "Polynomial" in ks and ring_fn(S, r) == ring:
                    seen.add(r["key"])
                    op_value(S, M, tr, r)
    with Mode(S) as M:
        for r in conversions(S):
            value_fn(S, M, r)
    for tr, r in operators(S, ("Polynomial", "Term")):
        if "Polynomial" in [kind_of(S, t) for t in params(S, r)] and r["key"] not in seen:
            S.undecided(label(r), "denotes the ring operation", "not analysed")
    for tr in POLYOPS:
        the(S, "Polynomial", tr, tr.lower())
    the(S, "Polynomial", "Neg", "neg")


def conversions(S):
    out = []
    for tr, ns in ((None, ("zero", "one", "is_zero")), ("Default", ("default",)), ("From", ("from",))):
        for n in ns:
            out += find(S, "Polynomial", tr, n)
    return [r for r in out if S.prog.body(r["key"])]


def p01(S):
    done = set()
    for ring in (False, True):
        with Mode(S, ring) as M:
            for r in S.prog.roots:
                if r["kind"] != "fn" or r["key"] in done or "unchecked" in r["name"] or not S.prog.body(r["key"]):
                    continue
                if "poly::" not in r["path"]:
                    continue
                ks = [kind_of(S, t) for t in params(S, r)]
                ret = ret_type(S, r)
                if "Polynomial" not in tyname(S.types, ret) and S.types.T[ret].get("was") != "Polynomial":
                    continue
                if r["name"] in ("new",) or ring_fn(S, r) != ring or any(k not in ("Polynomial", "Term", "F", "u8", "usize") for k in ks):
                    continue
                if S.types.T[ret]["k"] == "ref":
                    continue
                done.add(r["key"])
                wf_of(S, M, r)
    for n in ("zero", "one", "var"):
        the(S, "Polynomial", None, n)
    the(S, "Computer", None, "sort_terms")


def wf_of(S, M, r):
    fn = label(r)
    F, ins = inputs_of(S, r)
    if last(r.get("trait") or "") == "Div":
        F = F.add(("rne", ins[1]))
    if M.ring:
        S.prog.ring.raw = []
    outs = outcomes(S, M, r, F)
    for o in outs or ():
        if o.kind != "ret":
            continue
        for v in walk(S, o.val, "Polynomial"):
            well_formed(S, fn, o.facts, pol_seq(S, v))
    if M.ring and outs is not None:
        S.proved(fn, "results come from operations that keep polynomials well formed")
        for F, s in S.prog.ring.raw:
            well_formed(S, fn, F, s, " (list of terms made into a polynomial)")


CHECKS = {"P01": p01, "P02": p02, "P03": p03}


# ------------------------------------------------------------------------------------- leading terms
def rank_of_mono(m):
    return P(sym("rank", (m,), "int"))


def p06(S):
    with Mode(S) as M:
        leading_term(S, M)
        leading_coef(S, M)
        sorting(S, M)


def position_of(S, v, key):
    """the position i for which v is element i of the list `key`"""
    c, m = tm(S.types, v)
    for x, k in ((c, 0), (m, 1)):
        a = x.single()
        if a is None or a.kind != "x" or not (isinstance(a.args[0], tuple) and a.args[0][0] == "f" and a.args[0][2] == k):
            return None
        e = a.args[0][1]
        if e[0] != "el" or e[1] != key:
            return None
        if k == 0:
            i = e[2]
        elif e[2] != i:
            return None
    return i


def opt(S, v):
    """(is it Some, the payload) of an option"""
    v = force(v, S.types)
    if isinstance(v, AdtV) and last(v.path) == "Option":
        return v.variant == 1, (v.fields[0] if v.variant == 1 else None)
    raise Undecided("not an option: %r" % (v,))


def wlead(w, ts):
    """the leading term of a list of terms in a valuation"""
    return max(ts, key=lambda t: w.place(t[1])) if ts else None


def leading_term(S, M):
    r = the(S, "Computer", None, "leading_term")
    fn = label(r)
    F, ins = inputs_of(S, r)
    s = pol_seq(S, ins[0])

    def then(ex, ctx, v):
        some_, x = opt(S, v)
        return TupV([P(1 if some_ else 0), deref(ex, ctx, x) if some_ else P(0)])
    for o in outcomes(S, M, r, F, then=then) or ():
        if o.kind != "ret":
            S.reach(fn, "does not panic", o.facts, "panics: %s" % o.msg)
            continue
        got = o.val.fields[0] == ONE
        S.goal(fn, "absent exactly for the zero polynomial", o.facts, L(ge(s.n - 1)) if got else L(ge(-s.n)))
        if not got:
            continue
        t = force(o.val.fields[1], S.types)
        pred = ((s, t), lambda w, t=t: (lambda ts, x: x in ts and x == wlead(w, ts))(wterms(w, S.types, s), wterm(w.val(t))))
        i = position_of(S, t, s.key)
        if i is None:
            S.goal(fn, "a largest term of the polynomial", o.facts, False, pred=pred)
            continue
        x = var("t")
        m = tm(S.types, t)[1]
        G = o.facts.add_all([ge(P(x)), ge(s.n - 1 - P(x))])
        f = AND(L(ge(i)), L(ge(s.n - 1 - i)), ALL(x, ZERO, s.n, L(ge(rank_of_mono(m) - rank_of_mono(tm(S.types, pure_get(s, P(x), G, S.types))[1])))) if G else True)
        S.goal(fn, "a largest term of the polynomial", o.facts, f, pred=pred)


def leading_coef(S, M):
    r = the(S, "Computer", None, "leading_coef")
    fn = label(r)
    F, ins = inputs_of(S, r)
    s = pol_seq(S, ins[0])
    for o in outcomes(S, M, r, F) or ():
        if o.kind != "ret":
            S.reach(fn, "does not panic", o.facts, "panics: %s" % o.msg)
            continue
        got, c = opt(S, o.val)
        S.goal(fn, "absent exactly for the zero polynomial", o.facts, L(ge(s.n - 1)) if got else L(ge(-s.n)))
        if not got:
            continue
        c = force(c, S.types)
        pred = ((s, c), lambda w, c=c: (lambda ts: bool(ts) and w.num(c) == wlead(w, ts)[0])(wterms(w, S.types, s)))
        a = c.single()
        k = a.args[0] if a is not None and a.kind == "x" else None
        f = False
        if isinstance(k, tuple) and k[0] == "f" and k[2] == 0 and k[1][0] == "el" and k[1][1] == s.key:
            i, x = k[1][2], var("t")
            at = lambda j: tm(S.types, pure_get(s, j, o.facts, S.types))[1]
            f = AND(L(ge(i)), L(ge(s.n - 1 - i)), ALL(x, ZERO, s.n, L(ge(rank_of_mono(at(i)) - rank_of_mono(at(P(x)))))))
        S.goal(fn, "the coefficient of the leading term", o.facts, f, pred=pred)


def sorting(S, M):
    r = the(S, "Computer", None, "sort_terms")
    fn = label(r)
    F, ins = inputs_of(S, r)
    s = pol_seq(S, ins[0])
    for o in outcomes(S, M, r, F) or ():
        if o.kind != "ret":
            S.reach(fn, "does not panic", o.facts, "panics: %s" % o.msg)
            continue
        t = pol_seq(S, o.val)
        key = lambda x: (x[0], repr(x[1]))
        same_terms = lambda w: sorted(wterms(w, S.types, t), key=key) == sorted(wterms(w, S.types, s), key=key)
        asc = lambda w: (lambda rs: rs == sorted(rs))([w.place(m) for _, m in wterms(w, S.types, t)])
        b, order = t, None
        if perm_of(b) is not None:
            p = perm_of(b)
            order = next(a for a in fv(b.cases[0][1]) if a.kind == "from").args[0]
            b = order.base
            if p.cases[0][1] != pure_get(b, P(DV), o.facts, S.types) and not all_same_term(S, p.cases[0][1], pure_get(b, P(DV), o.facts, S.types)):
                b = p
        elif isinstance(b, SortSeq) and b.order != ("set",):
            order, b = b, b.base
        S.goal(fn, "the same terms", o.facts, True if b == s else False, pred=((t, s), same_terms))
        ok = False
        if order is not None:
            ok = P(order.order[1]) == rank_of_mono(tm(S.types, pure_get(order.base, P(order.order[0]), o.facts, S.types))[1])
        elif o.facts.decide(ge(1 - t.n)) is True:
            ok = True
        S.goal(fn, "in ascending order", o.facts, True if ok else False, pred=((t,), asc))


def all_same_term(S, a, b):
    try:
        return tm(S.types, a) == tm(S.types, b)
    except Undecided:
        return False


# ------------------------------------------------------------------------------------- division
def wpol(w, v):
    """the ring element of a polynomial in a valuation"""
    if isinstance(v, tuple) and len(v) == 3 and isinstance(v[0], str):
        return sum((wterm(t)[0] * wterm(t)[1] for t in v[2]), 0)
    return v


class Division:
    """the outcomes of polynomial division and the loop that makes them"""

    def __init__(self, S, M):
        self.S, self.M = S, M
        self.r = the(S, "Computer", None, "divide")
        self.fn = label(self.r)
        self.F, self.ins = inputs_of(S, self.r)
        self.f0, self.g = self.ins
        self.loops = []
        S.loops = self.loops

        def setup(ex):
            ex.loophook = self.loops.append
        self.outs = outcomes(S, M, self.r, self.F, setup=setup) or ()
        tops = [L for L in self.loops if L.open]
        n = min((len(L.lid) for L in tops), default=0)
        self.tops = [L for L in tops if len(L.lid) == n]

    def parts(self, val):
        v = force(val, self.S.types)
        r, q = v.fields
        q = force(q, self.S.types)
        if not isinstance(q, Seq):
            raise Undecided("no list of quotients")
        return force(r, self.S.types), q

    def sigma(self, q, F):
        """the sum of quotient times divisor"""
        T = self.S.types
        if isinstance(q, UpdSeq):
            old = force(pure_get(q.base, q.idx, F, T), T)
            g = force(pure_get(self.g, q.idx, F, T), T)
            return self.sigma(q.base, F) + (D(self.S, q.val, F) - old) * g
        G = F.add_all([ge(P(DV)), ge(q.n - 1 - P(DV))]) or F
        return Sum(ZERO, q.n, DV, D(self.S, pure_get(q, P(DV), G, T), F) * force(pure_get(self.g, P(DV), G, T), T))

    def rest(self, val, F):
        """what the identity lacks"""
        r, q = self.parts(val)
        return self.f0 - D(self.S, r, F) - self.sigma(q, F)

    def step(self, L, o):
        """the substitution from the state at the head to the state after the step o (None: the first state)"""
        m, seqs, self.missing = {}, {}, False
        for lf in L.W.leaves.values():
            v = lf.init if o is None else value_at(lf.root, lf.path, o.store, self.S.types)
            if v is None:
                raise Undecided("state of the loop")
            if lf.kind == "seq":
                seqs[lf.id] = v
            elif isinstance(v, Poly):
                m[P(lf.hv).single()] = v
            elif lf.kind == "num":
                m[P(lf.hv).single()] = D(self.S, v, o.facts)
        s = Subst(m)
        s.seqs, s.facts, s.types, s.keys = seqs, None, self.S.types, set(m)
        return s

    def mentions(self, L, x):
        return any(i[:1] == ("hv",) and i[1:len(L.lid) + 1] == L.lid for i in ids(x))

    def inductive(self, L, o, need=None):
        """is the identity kept by the loop and complete at the exit o?"""
        base = self.rest(o.val, o.facts)
        xs = [ZERO] + [P(lf.hv) for lf in L.W.leaves.values() if lf.kind == "num" and P(lf.hv).single() is not None and P(lf.hv).single().sort == "Pol"]
        why = "no invariant"
        for x in xs:
            if x.t and not zero_in(o.facts, x):
                continue
            try:
                s = self.step(L, None)
                if not zero_in(L.F0, self.rest(s.any(o.val), L.F0) - s.any(x)):
                    why = "the first state"
                    continue
                bad = None
                for b in L.backs:
                    s = self.step(L, b)
                    d = self.rest(s.any(o.val), b.facts) - s.any(x) - (base - x)
                    if not zero_in(b.facts, d):
                        bad = "a step changes it by %s" % show(d)[:300]
                if bad is None:
                    return None
                why = bad
            except Undecided as e:
                why = str(e)
        return why


def show(p):
    return repr(p)


def p07(S):
    with Mode(S, True) as M:
        A = Division(S, M)
        fn, what = A.fn, "f = q1*g1 + ... + qm*gm + r"

        def parts(w, o):
            r, q = A.parts(o.val)
            return w.num(A.f0), wpol(w, w.val(r)), [wpol(w, x) for x in w.seq(q)], list(w.seq(A.g))

        def bad(w, o):
            if o.kind != "ret":
                return False
            f, r, q, g = parts(w, o)
            return len(q) != len(g) or f != r + sum((a * b for a, b in zip(q, g)), 0)

        def badn(w, o):
            if o.kind != "ret":
                return False
            f, r, q, g = parts(w, o)
            return len(q) != len(g)

        def badz(w, o):
            if o.kind != "ret":
                return False
            f, r, q, g = parts(w, o)
            return any(a != 0 for a, b in zip(q, g) if b == 0)
        division(S, A, fn, what, lambda o, L: identity(A, o, L), bad)
        division(S, A, fn, "one quotient per divisor", lambda o, L: count(A, o, L), badn)
        division(S, A, fn, "a zero divisor gets quotient zero", lambda o, L: zero_quotients(A, o, L), badz)
        panics(S, A, fn)
        used = M.used
    relied_on(S, used)


def panics(S, A, fn):
    for o in A.outs:
        if o.kind != "ret":
            if inexact(*o.facts.lits) or inexact(o.facts.foralls):
                refuted(S, fn, "does not panic", o.msg, A.F, A.outs, lambda w, o: o.kind != "ret")
            else:
                S.reach(fn, "does not panic", o.facts, o.msg)


def division(S, A, fn, what, ok, bad):
    """one obligation per outcome of the division, by induction over its loop"""
    if not A.outs:
        return S.undecided(fn, what, "no summary")
    why = None
    for o in A.outs:
        if o.kind != "ret":
            continue
        Ls = [L for L in A.tops if A.mentions(L, (o.val, o.facts))] or [None]
        for L in Ls:
            try:
                why = why or ok(o, L)
            except (Undecided, RecursionError) as e:
                why = str(e) or "not decided"
    if why is None:
        S.proved(fn, what)
    else:
        refuted(S, fn, what, why, A.F, A.outs, bad)


def identity(A, o, L):
    if L is None:
        return None if zero_in(o.facts, A.rest(o.val, o.facts)) else "not shown"
    return A.inductive(L, o)


def count(A, o, L):
    n = A.parts(o.val)[1].n
    F = o.facts
    if F.decide(eq(n, A.g.n)) is True:
        return None
    if L is None:
        return "not shown"
    if L.F0.decide(eq(A.step(L, None).any(A.parts(o.val)[1]).n, A.g.n)) is not True:
        return "the first state"
    for b in L.backs:
        if b.facts.decide(eq(A.step(L, b).any(A.parts(o.val)[1]).n, n)) is not True:
            return "a step changes the number of quotients"
    return None


def zero_quotients(A, o, L):
    T = A.S.types
    q0 = A.parts(o.val)[1]

    def ok(q, F):
        if L is not None and q == q0 and isinstance(q, SymSeq):
            return True
        if isinstance(q, UpdSeq):
            G = F.add(req(force(pure_get(A.g, q.idx, F, T), T)))
            return ok(q.base, F) and (G is None or zero_in(G, D(A.S, q.val, G) - force(pure_get(q.base, q.idx, G, T), T)))
        G = F.add_all([ge(P(DV)), ge(q.n - 1 - P(DV)), req(force(pure_get(A.g, P(DV), F, T), T))])
        return G is None or zero_in(G, D(A.S, pure_get(q, P(DV), G, T), G))
    if L is None:
        return None if ok(q0, o.facts) else "not shown"
    if not ok(A.step(L, None).any(q0), L.F0):
        return "the first state"
    for b in L.backs:
        if not ok(A.step(L, b).any(q0), b.facts):
            return "a step gives a zero divisor a quotient"
    return None


def value_fn(S, M, r):
    """constructors, conversions and the zero test denote what the analysis takes them for"""
    fn = label(r)
    F, ins = inputs_of(S, r)
    n = r["name"]
    for o in outcomes(S, M, r, F) or ():
        if o.kind != "ret":
            S.reach(fn, "does not panic", o.facts, "panics: %s" % o.msg)
            continue
        try:
            ds = [D(S, x, o.facts) for x in ins]
            if n == "is_zero":
                z = zero_test(S, ins[0], ds[0])
                S.goal(fn, "accepts exactly the zero polynomial", o.facts, AND(OR(f_not(o.val), z), OR(o.val, f_not(z))))
                continue
            want = {"zero": ZERO, "default": ZERO, "one": ONE}.get(n, ds[0] if ds else None)
            got = D(S, o.val, o.facts)
        except Undecided as e:
            S.undecided(fn, "denotes its argument", str(e))
            continue
        same(S, fn, "is the constant polynomial" if not ds else "denotes its argument", o.facts, got, want, (o.val,) + tuple(ins), None)


def zero_test(S, x, d):
    if isinstance(x, AdtV) and last(x.path) == "Polynomial":
        return L(ge(-pol_seq(S, x).n))
    return L(req(d))


VALUES = ("zero", "one", "default", "from", "is_zero", "clone")


def relied_on(S, keys):
    """the obligations behind the meanings put for functions that were called: their own values, and the
    well-formedness of their results"""
    orig = S.prog
    T = Suite(S.pid, orig, S.tier)
    T.peel = S.peel
    done, todo = set(), list(keys)
    labels = set()
    byk = {r["key"]: r for r in orig.roots}
    while todo:
        k = todo.pop()
        r = byk.get(k)
        if k in done or r is None:
            continue
        done.add(k)
        st = last(r.get("self_ty") or "") or ""
        ks = [kind_of(T, t) for t in params(T, r)] + [kind_of(T, ret_type(T, r))]
        if r["name"] in ("monic_lcm",) or "MultiDegree" in ks and "Polynomial" not in ks:
            labels.add(label(r))
            continue
        if st == "Computer" or r["name"] in ("divide", "try_reduce"):
            continue
        ring = ring_fn(T, r)
        with Mode(T, ring) as M:
            tr = last(r.get("trait"))
            if tr in POLYOPS or tr == "Neg":
                op_value(T, M, tr, r)
            elif r["name"] in VALUES:
                value_fn(T, M, r)
            if kind_of(T, ret_type(T, r)) == "Polynomial" and r["name"] not in ("clone",):
                wf_of(T, M, r)
            todo += M.used
    take(S, T, None)
    if labels:
        from .mdeg import m01, m02, m03
        T = Suite(S.pid, orig, S.tier)
        T.peel = S.peel
        for f in (m01, m02, m03):
            f(T)
        take(S, T, labels)


def take(S, T, labels):
    """the obligations of T about the functions labelled, as obligations of S"""
    for o in T.obl:
        if labels is None or o["function"] in labels:
            S.obl.append(o)
    for k, v in T.violations.items():
        if labels is None or v["function"] in labels:
            S.violations.setdefault(k, v)
    for k, v in T.functions.items():
        if labels is None or k.split(":m0")[0] in labels or any(k.startswith(x) for x in labels):
            S.functions.setdefault(k, v)


def lead_term(f):
    i = lead(f)
    return term_part(f, i, 0) * term_part(f, i, 1)


def single_term(p):
    """the monomial of a coefficient times a monomial, or None"""
    if len(p.t) != 1:
        return None
    m = ONE
    for a, e in p.t[0][0]:
        if a.kind == "inv" or e != 1:
            t = term_atom(a.args[0].single() if a.kind == "inv" else a)
            e = -e if a.kind == "inv" else e
            a = a.args[0].single() if a.kind == "inv" else a
        t = term_atom(a)
        if a.kind == "lcm" or t is not None and t[2] == 1:
            m = m * (P(a) if e == 1 else inv_poly(P(a)) if e == -1 else power(P(a), e))
        elif t is None or t[2] != 0:
            return None
    return m


def undivided(A, F, m):
    """no divisor's leading monomial divides m"""
    T = A.S.types
    i = P(var("i"))
    G = F.add_all([ge(i), ge(A.g.n - 1 - i)])
    if G is None:
        return True
    g = force(pure_get(A.g, i, G, T), T)
    G = G.add(("rne", g))
    if G is None:
        return True
    q = m * inv_poly(term_part(g, lead(g), 1))

    def ok(K):
        if contradictory(K) or K.decide(("b", ("nn", q), False)) is True:
            return True
        # by cases over what is known of every divisor
        for H in splits(K, i):
            if H is not None and not (contradictory(H) or H.decide(("b", ("nn", q), False)) is True):
                return False
        return bool(K.foralls)
    return ok(G)


def splits(F, i):
    """the cases of what holds for every position, at position i"""
    for vars, cases in F.foralls:
        if len(vars) != 1 or len(cases) < 2:
            continue
        bv, lo, hi = vars[0]
        if F.decide(ge(i - lo)) is not True or F.decide(ge(hi - 1 - i)) is not True:
            continue
        s = Subst({bv: i})
        return [F.add_all([norm_lit(s.any(l)) for l in c]) for c in cases]
    return [F]


def quotient_part(A, q, q0, F):
    """(position, what was added there) for quotients q made from q0; position None: unchanged"""
    T = A.S.types
    if q == q0:
        return None, ZERO
    if isinstance(q, UpdSeq) and q.base == q0:
        return q.idx, D(A.S, q.val, F) - force(pure_get(q0, q.idx, F, T), T)
    raise Undecided("the quotients change by more than one term")


def undivided_remainder(A, o, L):
    r0 = A.parts(o.val)[0]
    if L is None:
        d = D(A.S, r0, o.facts)
        return None if zero_in(o.facts, d) else "not shown"
    s = A.step(L, None)
    base = D(A.S, r0, o.facts)
    if not zero_in(L.F0, D(A.S, s.any(r0), L.F0)):
        return "the first state"
    for b in L.backs:
        d = D(A.S, A.step(L, b).any(r0), b.facts) - base
        if zero_in(b.facts, d):
            continue
        m = single_term(d)
        if m is None:
            return "a step adds %s" % show(d)[:200]
        if not undivided(A, b.facts, m):
            return "a term that a divisor's leading term may divide goes to the remainder"
    return None


def lead_steps(A, o, L):
    """every step takes the leading term off the rest, by a term times a divisor that joins the quotient"""
    T = A.S.types
    q0 = A.parts(o.val)[1]
    if L is None:
        i = P(DV)
        G = o.facts.add_all([ge(i), ge(q0.n - 1 - i)])
        return None if G is None or zero_in(G, D(A.S, pure_get(q0, i, G, T), G)) else "not shown"
    work = [P(lf.hv) for lf in L.W.leaves.values() if lf.kind == "num" and P(lf.hv).single() is not None and P(lf.hv).single().sort == "Pol"]
    why = "no state of the loop is the rest of the dividend"
    for x in work:
        s = A.step(L, None)
        if not zero_in(L.F0, s.any(x) - A.f0):
            continue
        G = L.F0.add_all([ge(P(DV)), ge(s.any(q0).n - 1 - P(DV))])
        if G is not None and not zero_in(G, D(A.S, pure_get(s.any(q0), P(DV), G, T), G)):
            return "the first quotients"
        bad = None
        for b in L.backs:
            s = A.step(L, b)
            k, a = quotient_part(A, s.any(q0), q0, b.facts)
            d = s.any(x) - x
            if k is None or zero_in(b.facts, a):
                if not (zero_in(b.facts, d) or zero_in(b.facts, d + lead_term(x))):
                    bad = "the rest changes by %s" % show(d)[:200]
                continue
            g = force(pure_get(A.g, k, b.facts, T), T)
            if not zero_in(b.facts, d + a * g):
                bad = "the rest changes by %s" % show(d)[:200]
            elif not zero_in(b.facts, a * lead_term(g) - lead_term(x)):
                bad = "the product of the quotient term and the leading term of the divisor is not the leading term of the rest"
        if bad is None:
            return None
        why = bad
    return why


def p08(S):
    with Mode(S, True) as M:
        A = Division(S, M)
        fn = A.fn

        def parts(w, o):
            r, q = A.parts(o.val)
            return w.num(A.f0), wpol(w, w.val(r)), [wpol(w, x) for x in w.seq(q)], list(w.seq(A.g))

        def badr(w, o):
            if o.kind != "ret":
                return False
            _, r, _, g = parts(w, o)
            ls = [degrees(wleadm(w, x)) for x in g if x != 0]
            ms = [degrees(m) for _, m in polyval.terms(r)]
            return any(all(a <= b for a, b in zip(x, m)) for x in ls for m in ms)

        def badq(w, o):
            if o.kind != "ret":
                return False
            f, _, q, g = parts(w, o)
            return any(a * b != 0 and (f == 0 or w.place(wleadm(w, a * b)) > w.place(wleadm(w, f))) for a, b in zip(q, g))
        division(S, A, fn, "no term of the remainder is divisible by a leading term", lambda o, L: undivided_remainder(A, o, L), badr)
        division(S, A, fn, "no product of quotient and divisor exceeds the dividend", lambda o, L: lead_steps(A, o, L), badq)
        used = M.used
    relied_on(S, used)


def wleadm(w, p):
    """the leading monomial of a polynomial in a valuation"""
    return max((m for _, m in polyval.terms(p)), key=w.place)


# ------------------------------------------------------------------------------------- S-polynomials
def lcm_atom(m, k):
    a, b = sorted((m, k), key=repr)
    return m if a == b else P(sym("lcm", (a, b), "Mono"))


def p09(S):
    with Mode(S, True) as M:
        r = the(S, "Computer", None, "try_reduce")
        fn = label(r)
        F, (f, g) = inputs_of(S, r)
        l = lcm_atom(term_part(f, lead(f), 1), term_part(g, lead(g), 1))
        want = l * inv_poly(lead_term(f)) * f - l * inv_poly(lead_term(g)) * g

        def pred(w, v=None):
            a, b = w.num(f), w.num(g)
            if v is None:
                return a == 0 or b == 0
            return a != 0 and b != 0 and wpol(w, w.val(v)) == w.num(want)
        for o in outcomes(S, M, r, F) or ():
            if o.kind != "ret":
                S.reach(fn, "does not panic", o.facts, "panics: %s" % o.msg)
                continue
            v = force(o.val, S.types)
            if v.variant == 0:
                S.goal(fn, "absent only if an operand is zero", o.facts, OR(L(req(f)), L(req(g))), pred=((f, g), pred))
                continue
            x = v.fields[0]
            S.goal(fn, "present only if both operands are nonzero", o.facts, AND(L(("rne", f)), L(("rne", g))))
            try:
                got = D(S, x, o.facts)
            except Undecided as e:
                S.undecided(fn, "the S-polynomial", str(e))
                continue
            same(S, fn, "the S-polynomial", o.facts, got, want, (x, f, g), lambda w, x=x: pred(w, x))
        used = M.used
    relied_on(S, used)


CHECKS.update({"P09": p09, "P06": p06, "P07": p07, "P08": p08})
