"""Confirming that an obligation fails: a valuation of the value numbers of a summary under which
the path facts hold and the obligation does not.  Only the terms of the domain are evaluated; no
code of the analysed program is run.  Without such a valuation an unproved obligation is reported
as undecided, never as a violation."""
import random
from fractions import Fraction
from math import gcd as igcd
from .terms import *
from .terms import Atom, Poly
from .facts import *
from .values import *
from .polyval import PV, mono, exps
from . import polyval


class NoValue(Exception):
    pass


class Reject(Exception):
    """this valuation is not a legal one (e.g. division by zero)"""


# value numbers that stand for something only constrained by the facts: a valuation proves nothing
INEXACT = {"hv", "undef", "opq"}


def inexact(*xs):
    return any(a.kind in INEXACT for x in xs for a in fv(x))


def monomial(rng):
    """a monomial in three variables"""
    r = rng.random()
    if r > 0.85:
        return mono((rng.randrange(6), rng.randrange(4), rng.randrange(3)))
    if r < 0.06:
        big = (0, 0, 1, 2, 3, 4, 5, 8, 9, 12, 16) if r > 0.01 else (0, 0, 1, 63, 127, 128, 200, 255)
        return mono((rng.choice(big), rng.choice(big), rng.choice(big)))
    return mono((rng.choice((0, 0, 1, 2)), rng.choice((0, 0, 1, 2)), rng.choice((0, 0, 0, 1))))


def polynomial(rng, wide=False):
    """a polynomial in three variables with few terms"""
    r = 0
    if wide == "long":
        # a long one among short ones
        for _ in range(rng.choice((1, 1, 2, 6, 8, 10))):
            r = r + mono((rng.choice((0, 0, 1, 2, 3)), rng.choice((0, 0, 1, 2, 3)), 0)) * rng.choice((1, 1, 1, -1, 2))
        return r
    if wide is None:
        # small ones, mostly in two variables
        z, k = rng.random(), rng.random()
        es = (0, 0, 1, 1, 2) if z < .8 else (0, 1, 2, 3, 4) if z < .93 else (0, 1, 5, 7, 9)
        for _ in range(rng.choice((0, 1, 1, 2, 2, 2, 3)) if k < .95 else rng.choice((4, 5, 7, 10))):
            r = r + mono((rng.choice(es), rng.choice(es), 0 if k > .15 else rng.choice((0, 1)))) * rng.choice((1, 1, 1, -1, 2))
        return r
    for _ in range(rng.choice((0, 1, 1, 2, 2, 3)) if rng.random() > (.3 if wide else .04) else rng.choice((4, 5, 6, 9, 13, 20))):
        r = r + monomial(rng) * rng.choice((1, 1, -1, 2, -2, 3))
    return r


def degrees(x):
    """the exponents of a monomial (of a quotient of monomials)"""
    m = exps(x)
    if m is None:
        raise Reject()
    return m


class W:
    def __init__(self, rng, types=None, size=2, extra=None):
        self.rng, self.types, self.size = rng, types, size
        self.base = {}
        self.env = {}
        self.extra = extra or {}
        self.defs = {}
        self.touched = []
        self.ordering = rng.randrange(3)
        self.wide, self.strict = False, True

    # ------------------------------------------------------------------ keys and atoms
    def key(self, k):
        if isinstance(k, Poly):
            return self.num(k)
        if isinstance(k, tuple):
            return tuple([x if x.__class__ is str or x.__class__ is int else self.key(x) for x in k])
        if isinstance(k, Atom):
            return self.atom(k)
        if isinstance(k, Seq):
            return tuple(self.seq(k))
        if isinstance(k, Val):
            return self.val(k)
        return k

    def pick(self, k, sort):
        v = self.base.get((k, sort))
        self.touched.append((k, sort))
        if v is None:
            lo, hi = INT_BOUNDS.get(sort, (None, None))
            if sort == "Mono":
                v = monomial(self.rng)
            elif sort == "Pol":
                v = polynomial(self.rng, self.wide)
            elif sort in FIELD_SORTS:
                v = Fraction(self.rng.choice((0, 1, -1, 2, -2, 3)), self.rng.choice((1, 1, 1, 2)))
            elif isinstance(k, tuple) and k and k[0] == "len":
                v = self.rng.choice((0, 1, 1, 2, 2, 3) if self.wide in (None, False, "long") else (1, 5, 7, 9, 12, 13))
            else:
                s = self.size
                a, b = -s, s
                if lo is not None and lo > a:
                    a, b = lo, lo + s + 1
                if hi is not None and hi < b:
                    b = hi
                v = self.rng.randint(a, b)
                if self.rng.random() < 0.08 and hi is not None:
                    v = hi - self.rng.randint(0, 1)
                elif self.rng.random() < 0.08:
                    v = self.rng.choice((6, 10, 12, 255, 256))
                    v = v if hi is None else min(v, hi)
            self.base[(k, sort)] = v
        return v

    def atom(self, a):
        WORK[0] += 1
        if a in self.env:
            return self.env[a]
        d = self.defs.get(a)
        if d is not None:
            return self.num(d)
        k, args = a.kind, a.args
        t = term_atom(a)
        if t is not None:
            ts = polyval.terms(self.num(t[0]))
            i = self.num(t[1])
            if not 0 <= i < len(ts):
                raise Reject()
            return ts[int(i)][t[2]]
        if k == "len" and isinstance(args[0], tuple) and args[0][0] == "terms":
            return len(polyval.terms(self.num(args[0][1])))
        if k == "len" and isinstance(args[0], tuple) and args[0][0] == "exps":
            return len(self.exps(args[0][1]))
        if k == "x" and isinstance(args[0], tuple) and args[0][0] == "el" and isinstance(args[0][1], tuple) and args[0][1][0] == "exps":
            es, i = self.exps(args[0][1][1]), self.num(args[0][2])
            if not 0 <= i < len(es):
                raise Reject()
            return es[int(i)]
        if k in self.extra:
            return self.extra[k](self, a)
        f = getattr(self, "k_" + k, None)
        if f is not None:
            return f(a)
        if k in ("x", "len", "it") and not (self.strict and widened(args)) or k == "hv" and not self.strict:
            return self.pick((k,) + self.key(args), a.sort)
        raise NoValue(k)

    def k_gcd(self, a):
        return igcd(int(self.num(a.args[0])), int(self.num(a.args[1])))

    def k_inv(self, a):
        v = self.num(a.args[0])
        if v == 0:
            raise Reject()
        try:
            return Fraction(1) / v
        except ZeroDivisionError:
            raise Reject()

    def k_quot(self, a):
        x, y = self.num(a.args[0]), self.num(a.args[1])
        if y == 0:
            raise Reject()
        q = abs(x) // abs(y)
        return q if (x < 0) == (y < 0) else -q

    def k_rem(self, a):
        x, y = self.num(a.args[0]), self.num(a.args[1])
        if y == 0:
            raise Reject()
        return (abs(x) % abs(y)) * (1 if x >= 0 else -1)

    def k_wrap(self, a):
        v, name = self.num(a.args[0]), a.args[1]
        bits = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64,
                "usize": 64, "isize": 64, "u128": 128, "i128": 128}[name]
        v = int(v) % (1 << bits)
        if name[0] == "i" and v >> (bits - 1):
            v -= 1 << bits
        return v

    def k_pow(self, a):
        b, e = self.num(a.args[0]), self.num(a.args[1])
        if e != int(e) or abs(e) > 300 or abs(e) > 40 and abs(b) > 1:
            raise Reject()
        if e < 0:
            if b == 0:
                raise Reject()
            return Fraction(b) ** int(e)
        return b ** int(e)

    def over(self, lo, hi, bv, f):
        lo, hi = int(lo), int(hi)
        if hi - lo > 60:
            raise Reject()
        old = self.env.get(bv)
        try:
            for i in range(lo, hi):
                self.env[bv] = i
                yield f()
        finally:
            if old is None:
                self.env.pop(bv, None)
            else:
                self.env[bv] = old

    def k_sum(self, a):
        lo, hi, bv, body = a.args
        return sum(self.over(self.num(lo), self.num(hi), bv, lambda: self.num(body)))

    def k_prod(self, a):
        lo, hi, bv, body = a.args
        r = 1
        for v in self.over(self.num(lo), self.num(hi), bv, lambda: self.num(body)):
            r = r * v
        return r

    def k_stab(self, a):
        x = abs(self.num(a.args[0]))
        return 0 if x == 0 else 1 + int(x * 65536)

    def exps(self, m):
        """the exponents of a monomial up to the last variable in it"""
        es = list(degrees(self.num(m)))
        if min(es) < 0:
            raise Reject()
        while es and es[-1] == 0:
            es.pop()
        return es

    def k_tdeg(self, a):
        return sum(self.exps(a.args[0]))

    def k_rank(self, a):
        """the place of a monomial in the order"""
        return self.place(self.num(a.args[0]))

    def place(self, m):
        return polyval.rank(degrees(m), self.ordering)

    def k_lead(self, a):
        ts = polyval.terms(self.num(a.args[0][1]))
        if not ts:
            raise Reject()
        return max(range(len(ts)), key=lambda i: self.place(ts[i][1]))

    def k_lcm(self, a):
        x, y = (degrees(self.num(p)) for p in a.args[:2])
        return mono(tuple(map(max, x, y)))

    def k_var(self, a):
        i, d = (int(self.num(p)) for p in a.args)
        if i > 2 or d > 20:
            raise Reject()
        return mono(tuple(d if k == i else 0 for k in range(3)))

    def order(self, s):
        """the positions of the base sequence in the order of a sorted one"""
        bv, body = s.order
        rk = list(self.over(0, self.num(s.base.n), bv, lambda: self.num(body)))
        return sorted(range(len(rk)), key=lambda i: rk[i])

    def k_from(self, a):
        s, i = a.args
        i = self.num(i)
        if isinstance(s, SortSeq) and s.order != ("set",):
            o = self.order(s)
        elif isinstance(s, SortSeq):
            b = self.seq(s.base)
            o = [b.index(v) for v in sorted(set(b))]
        elif isinstance(s, FiltSeq):
            o = [k for k, (ok, _) in enumerate(self.over(0, self.num(s.m), s.bv, lambda: self.cases(s.cases))) if ok]
        else:
            raise NoValue("from")
        if not 0 <= i < len(o):
            raise Reject()
        return o[int(i)]

    def k_card(self, a):
        return len(set(self.seq(a.args[0])))

    def k_wit(self, a):
        """the first place at which one of the cases holds"""
        n, bv, cs = a.args
        for i, k in enumerate(self.over(0, self.num(n), bv, lambda: self.disj(cs))):
            if k:
                return i
        raise Reject()

    def extremum(self, a, sign, last):
        n, bv, body = a.args
        vs = list(self.over(0, self.num(n), bv, lambda: self.num(body)))
        if not vs:
            raise Reject()
        m = max(v * sign for v in vs)
        ix = [i for i, v in enumerate(vs) if v * sign == m]
        return ix[-1] if last else ix[0]

    def k_argmaxl(self, a):
        return self.extremum(a, 1, True)

    def k_argmaxf(self, a):
        return self.extremum(a, 1, False)

    def k_argminl(self, a):
        return self.extremum(a, -1, True)

    def k_argminf(self, a):
        return self.extremum(a, -1, False)

    def k_ite(self, a):
        for ls, p in a.args:
            if self.conj(ls):
                return self.num(p)
        raise Reject()

    def k_cnt(self, a):
        m, bv, cs = a.args
        return sum(self.over(0, self.num(m), bv, lambda: 1 if self.disj(cs) else 0))

    def k_first(self, a):
        bv, cs = a.args
        for i, k in enumerate(self.over(0, 60, bv, lambda: self.disj(cs))):
            if not k:
                return i
        raise Reject()

    def k_lastkeep(self, a):
        m, bv, cs = a.args
        r = 0
        for i, k in enumerate(self.over(0, self.num(m), bv, lambda: self.disj(cs))):
            if k:
                r = i + 1
        return r

    def conj(self, ls):
        """a conjunction; one that is false is false whatever the others are"""
        gap = None
        for l in ls:
            try:
                if not self.lit(l):
                    return False
            except Reject as e:
                gap = e
        if gap is not None:
            raise gap
        return True

    def disj(self, cs):
        gap = None
        for c in cs:
            try:
                if self.conj(c):
                    return True
            except Reject as e:
                gap = e
        if gap is not None:
            raise gap
        return False

    # ------------------------------------------------------------------ numbers, literals
    def num(self, p):
        if len(p.t) == 1:
            (m, c), = p.t
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                r = self.atom(m[0][0])
                return r.numerator if r.__class__ is Fraction and r.denominator == 1 else r
        r = 0
        for m, c in p.t:
            x = c
            for a, e in m:
                v = self.atom(a)
                if e == 1:
                    x = x * v if x != 1 else v
                    continue
                if e < 0:
                    if v == 0:
                        raise Reject()
                    v = Fraction(v) if isinstance(v, int) else v
                try:
                    x = x * v ** e
                except ZeroDivisionError:
                    raise Reject()
            r = r + x
        if isinstance(r, Fraction) and r.denominator == 1:
            r = r.numerator
        return r

    def lit(self, l):
        k = l[0]
        if k in ("ge", "rge"):
            return self.num(l[1]) >= 0
        if k == "rgt":
            return self.num(l[1]) > 0
        if k in ("eq", "req"):
            return self.num(l[1]) == 0
        if k in ("ne", "rne"):
            return self.num(l[1]) != 0
        if k == "b" and isinstance(l[1], tuple) and l[1][0] == "exists" and len(l[1]) == 4:
            _, n, bv, cs = l[1]
            return any(list(self.over(0, self.num(n), bv, lambda: self.disj(cs)))) == l[2]
        if k == "b" and isinstance(l[1], tuple) and l[1][0] == "comparison panics":
            # whether the pairs compared include one that panics is not known
            if l[2]:
                raise NoValue("comparison panics")
            return True
        if k == "b" and isinstance(l[1], tuple) and l[1][0] == "nn":
            return all(x >= 0 for x in degrees(self.num(l[1][1]))) == l[2]
        if k == "b":
            kk = self.key(l[1])
            if kk not in self.base:
                self.base[kk] = self.rng.random() < .5
            return self.base[kk] == l[2]
        if k == "d":
            if "d" in self.extra:
                return self.extra["d"](self, l)
        raise NoValue(k)

    def formula(self, f):
        if f is True or f is False:
            return f
        if f[0] == "lit":
            return self.lit(f[1])
        if f[0] == "pred":
            try:
                return f[1](self)
            except (IndexError, ZeroDivisionError):
                raise Reject()
        if f[0] == "and":
            return all(self.formula(x) for x in f[1])
        if f[0] == "or":
            return any(self.formula(x) for x in f[1])
        if f[0] == "all":
            _, var, lo, hi, g = f
            return all(self.over(self.num(lo), self.num(hi), var, lambda: self.formula(g)))
        if f[0] == "ex":
            _, var, lo, hi, g = f
            return any(list(self.over(self.num(lo), self.num(hi), var, lambda: self.formula(g))))
        raise NoValue(f[0])

    def forall(self, vars, cases):
        def go(k):
            if k == len(vars):
                return self.disj(cases)
            bv, lo, hi = vars[k]
            return all(list(self.over(self.num(lo), self.num(hi), bv, lambda: go(k + 1))))
        return go(0)

    def failing(self, vars, cases):
        """the number of instances that do not hold; the values touched are those of the first one"""
        n, first = 0, None

        def go(k):
            nonlocal n, first
            if k == len(vars):
                mark = len(self.touched)
                try:
                    ok = self.disj(cases)
                except Reject:
                    ok = False
                if not ok:
                    n += 1
                    if first is None:
                        first = self.touched[mark:]
                return
            bv, lo, hi = vars[k]
            for _ in self.over(self.num(lo), self.num(hi), bv, lambda: go(k + 1)):
                pass
        go(0)
        if first:
            self.touched = first
        return n

    # ------------------------------------------------------------------ structured values
    def val(self, v):
        if isinstance(v, Poly):
            return self.num(v)
        if isinstance(v, SymV):
            w = force(v, self.types)
            if isinstance(w, SymV):
                return ("sym", self.key(w.key))
            return self.val(w)
        if isinstance(v, AdtV):
            return (v.path, v.variant) + tuple(self.val(x) for x in v.fields)
        if isinstance(v, TupV):
            return tuple(self.val(x) for x in v.fields)
        if isinstance(v, Seq):
            return tuple(self.seq(v))
        if isinstance(v, OpaqueV) and v.tag == "text":
            return ("text",) + tuple(self.part(p) for p in v.args)
        if isinstance(v, RefV):
            return ("ref", v.root) + tuple(tuple(int(self.num(x)) if isinstance(x, Poly) else x for x in e) for e in v.path)
        if v is True or v is False or isinstance(v, tuple) and v and v[0] in ("lit", "and", "or"):
            return self.formula(v)
        raise NoValue(type(v).__name__)

    def part(self, p):
        """a part of a text (sa/text.py) with the values in it evaluated"""
        if p[0] == "s":
            return p
        if p[0] == "with":
            return p[:2] + (self.part(p[2]),)
        return p[:-1] + (self.val(p[-1]),)

    def cases(self, cs):
        for ls, v in cs:
            if self.conj(ls):
                return (False, None) if v == KEEP else (True, self.val(v))
        return False, None

    def seq(self, s):
        """the elements of a sequence"""
        if isinstance(s, LitSeq):
            return [self.val(x) for x in s.items]
        n = self.num(s.n)
        if n > 40 or n < 0:
            raise Reject()
        n = int(n)
        if isinstance(s, SymSeq):
            st = getattr(self, "state", {}).get(s.key)
            if st is not None:
                return list(st)
            if isinstance(s.key, tuple) and s.key[0] == "terms":
                p = next(p for p in self.types.adts if p.split("::")[-1] == "Term")
                return [(p, 0, c, m) for c, m in polyval.terms(self.num(s.key[1]))]
        elif isinstance(s, CompSeq):
            out = []
            for ok, v in self.over(0, n, s.bv, lambda: self.cases(s.cases)):
                if not ok:
                    raise Reject()
                out.append(v)
            return out
        elif isinstance(s, CatSeq):
            return [x for g in s.segs for x in self.seq(g)]
        elif isinstance(s, SubSeq):
            b, k = self.seq(s.base), int(self.num(s.start))
            if k < 0 or k + n > len(b):
                raise Reject()
            return b[k:k + n]
        elif isinstance(s, UpdSeq):
            b, k = self.seq(s.base), int(self.num(s.idx))
            if not 0 <= k < len(b):
                raise Reject()
            b[k] = self.val(s.val)
            return b
        elif isinstance(s, RemSeq):
            b, k = self.seq(s.base), int(self.num(s.idx))
            if not 0 <= k < len(b):
                raise Reject()
            return b[:k] + b[k + 1:]
        elif isinstance(s, MUpdSeq):
            b = self.seq(s.base)

            def go(vs):
                if not vs:
                    ok, v = self.cases(s.cases)
                    if ok:
                        k = int(self.num(s.idx))
                        if not 0 <= k < len(b):
                            raise Reject()
                        b[k] = v
                    return
                bv, m = vs[0]
                for _ in self.over(0, self.num(m), bv, lambda: go(vs[1:])):
                    pass
            go(s.vars)
            return b
        elif isinstance(s, SortSeq):
            b = self.seq(s.base)
            if s.order == ("set",):
                return sorted(set(b))
            return [b[i] for i in self.order(s)]
        elif isinstance(s, FiltSeq):
            return [v for ok, v in self.over(0, self.num(s.m), s.bv, lambda: self.cases(s.cases)) if ok]
        return [self.item(s, i) for i in range(n)]

    def item(self, s, i):
        return self.val(pure_get(s, P(i), Facts(), self.types))


def widened(k):
    """does the name of a value mention a place that a loop was widened at?"""
    return isinstance(k, tuple) and (bool(k) and k[0] == "hv" or any(widened(x) for x in k))


def derived(a):
    """is the atom's value a function of other values: a term of a polynomial, an exponent of a monomial, their numbers?"""
    if term_atom(a) is not None:
        return True
    k = a.args[0] if a.args else None
    if isinstance(k, tuple) and k[0] == "el":
        k = k[1]
    return a.kind in ("x", "len") and isinstance(k, tuple) and k[0] in ("terms", "exps")


def linear_defs(facts, extra_lits=()):
    """equalities solved for one base value number each, so that valuations satisfy them"""
    defs = {}
    for l in sorted(list(facts.lits) + list(extra_lits), key=show_lit):
        if l[0] not in ("eq", "req"):
            continue
        p = subst(l[1], defs)
        for a in sorted(p.atoms(), key=lambda a: -len(a.s)):
            if a.kind not in ("x", "hv", "it", "len") or a in defs or derived(a):
                continue
            li = p.linear_in(a)
            if li and (li[0].const() in (1, -1) or (l[0] == "req" and li[0].const())):
                r = -li[1] * P(Fraction(1) / li[0].const())
                if a in fv(r):
                    continue
                defs = {k: subst(v, {a: r}) for k, v in defs.items()}
                if any(k in fv(v) for k, v in defs.items()):
                    continue
                defs[a] = r
                break
    return defs


def in_range(w, a):
    v = w.atom(a)
    lo, hi = INT_BOUNDS.get(a.sort, (None, None))
    return not ((lo is not None and v < lo) or (hi is not None and v > hi) or (a.sort not in FIELD_SORTS and v != int(v)))


def tweak(w, rng, keys, test):
    """change one of the values the failing constraint depends on so that it holds; else at random"""
    keys = list(dict.fromkeys(keys))
    if not keys:
        return False
    rng.shuffle(keys)
    for k in keys[:6]:
        old = w.base.get(k)
        if old is None:
            continue
        if isinstance(old, bool):
            cands = [not old]
        elif k[1] == "Mono":
            cands = [monomial(rng) for _ in range(6)] + [v for kk, v in list(w.base.items()) if isinstance(kk, tuple) and len(kk) == 2 and kk[1] == "Mono"][:6]
        elif k[1] == "Pol":
            cands = [0] + [polynomial(rng, w.wide) for _ in range(8)] + [old + polynomial(rng, True), old + 1, old - 1] + [v for kk, v in list(w.base.items()) if isinstance(kk, tuple) and len(kk) == 2 and kk[1] == "Pol"][:6]
        else:
            lo, hi = INT_BOUNDS.get(k[1], (None, None))
            cands = [old + 1, old - 1, old + 2, old - 2, 0, 1, old + rng.randint(3, 9), old - rng.randint(3, 9)]
            if hi is not None:
                cands += [hi, hi // 2 + 1]
            cands = [c for c in cands if (lo is None or c >= lo) and (hi is None or c <= hi) and (k[1] not in ("usize", "nat") or c >= 0)
                     and not (k[0] and isinstance(k[0], tuple) and k[0][0] in ("len", "it") and (c > 14 or c < 0))]
        for c in cands:
            w.base[k] = c
            try:
                if test():
                    return True
            except Reject:
                pass
        w.base[k] = old
    k = rng.choice(keys[:6])
    old = w.base.get(k)
    if k[1] == "Mono":
        w.base[k] = monomial(rng)
    elif k[1] == "Pol":
        w.base[k] = polynomial(rng)
    elif old is not None and not isinstance(old, bool):
        lo, hi = INT_BOUNDS.get(k[1], (None, None))
        c = old + rng.choice((-1, 1))
        if (lo is None or c >= lo) and (hi is None or c <= hi) and (c >= 0 or k[1] not in ("usize", "nat")):
            w.base[k] = c
    return False


WORK = [0]          # values computed, a measure of effort
EFFORT = 600000    # after which a search is given up


def settled(w, cons):
    """the values solved for become values of their own (an element may be mentioned in several ways): all still holds"""
    if not w.defs:
        return True
    try:
        vals = [(a, w.atom(a)) for a in sorted(w.defs, key=lambda a: a.s)]
        w.defs = {}
        for a, v in vals:
            if term_atom(a) is None and a.kind not in w.extra and getattr(w, "k_" + a.kind, None) is None:
                w.base[((a.kind,) + w.key(a.args), a.sort)] = v
        return not any(c(w) for c in cons)
    except (NoValue, Undecided, Reject, OverflowError):
        return False


def refute(facts, goal, types=None, tries=1500, seed=1, extra=None, need=()):
    """a valuation with the facts true and the formula `goal` false (as a dict), or None.
    Local search: start from a random valuation and change the values a violated fact depends on."""
    if (goal is not False and goal[0] != "pred" and inexact(goal)) or inexact(*facts.lits) or inexact(facts.foralls):
        return None
    defs = linear_defs(facts)
    rng = random.Random(seed)
    lits = sorted(facts.lits, key=lambda l: len(show_lit(l)))
    # what must hold, as the number of ways in which it does not
    cons = [lambda w, a=a: not in_range(w, a) for a in sorted(defs, key=lambda a: a.s)]
    cons += [lambda w, l=l: not w.lit(l) for l in lits]
    cons += [lambda w, f=f: w.failing(*f) for f in facts.foralls]
    cons += [lambda w, f=f: not w.formula(f) for f in need]
    cons.append(lambda w: w.formula(goal))
    starts = max(20, tries // 12)
    limit = WORK[0] + EFFORT
    for t in range(starts):
        if WORK[0] > limit:
            return None
        w = W(rng, types, size=2 + t % 4, extra=extra)
        w.defs = defs
        w.wide = t % 6 == 5
        stuck = 0
        for step in range(40 + len(cons)):
            bad = None
            try:
                for c in cons:
                    w.touched = []
                    try:
                        wrong = c(w)
                    except Reject:
                        wrong = 1000
                    if wrong:
                        bad = c
                        break
                if bad is None and not settled(w, cons):
                    break
                if bad is None:
                    return {show(k[0] if isinstance(k, tuple) and len(k) == 2 else k): str(v) for k, v in w.base.items()}
                if not tweak(w, rng, list(w.touched), lambda: bad(w) < wrong):
                    stuck += 1
                    if stuck > 10 + len(cons):
                        break
            except OverflowError:
                break
            except (NoValue, Undecided):
                return None
    return None
