"""Path facts: literals over value numbers, and a small relational domain (linear constraints with
integer tightening, plus the mixed-radix rule for row-major indices) to decide them."""
from fractions import Fraction
from math import gcd as igcd
from .terms import *
from .terms import Atom, Poly, _bvl

# literals -------------------------------------------------------------------------------------
# ('ge',p) p>=0   ('eq',p) p==0   ('ne',p) p!=0            machine integers
# ('rge',p) ('rgt',p) ('req',p) ('rne',p)                  ordered reals / field elements
# ('b',key,bool)  opaque truth value      ('d',key,variant)  variant of an opaque enum


def neg(l):
    k = l[0]
    if k == "ge":
        return ("ge", -l[1] - 1)
    if k == "eq":
        return ("ne", l[1])
    if k == "ne":
        return ("eq", l[1])
    if k == "rge":
        return ("rgt", -l[1])
    if k == "rgt":
        return ("rge", -l[1])
    if k == "req":
        return ("rne", l[1])
    if k == "rne":
        return ("req", l[1])
    if k == "b":
        return ("b", l[1], not l[2])
    raise ValueError(l)


def ge(a, b=0):
    return ("ge", P(a) - P(b))


def lt(a, b):
    return ("ge", P(b) - P(a) - 1)


def gt(a, b):
    return lt(b, a)


def le(a, b):
    return ("ge", P(b) - P(a))


def _sgn_norm(p):
    if p.t and p.t[0][1] < 0:
        return -p
    return p


def eq(a, b=0):
    return ("eq", _sgn_norm(P(a) - P(b)))


def ne(a, b=0):
    return ("ne", _sgn_norm(P(a) - P(b)))


def _monic(p):
    if len(p.t) > 1:
        # a common factor that is a monomial is not zero
        low = None
        for m, _ in p.t:
            d = {a: e for a, e in m if a.sort == "Mono" and e > 0}
            low = d if low is None else {a: min(e, d[a]) for a, e in low.items() if a in d}
            if not low:
                break
        if low:
            p = p * Poly(((tuple(sorted(((a, -e) for a, e in low.items()), key=lambda x: x[0].s)), 1),))
    if p.t and p.t[0][1] != 1:
        return p * P(Fraction(1) / p.t[0][1])
    return p


def clear_inv(p):
    """multiply away negative exponents (the denominators are assumed nonzero)"""
    low = {}
    for m, _ in p.t:
        for a, e in m:
            if e < 0:
                low[a] = min(low.get(a, 0), e)
    if low:
        p = p * Poly(((tuple(sorted(((a, -e) for a, e in low.items()), key=lambda x: x[0].s)), 1),))
    return p


def req(a, b=0):
    return ("req", _monic(clear_inv(P(a) - P(b))))


def rne(a, b=0):
    return ("rne", _monic(clear_inv(P(a) - P(b))))


def trivial(l):
    k = l[0]
    if k in ("ge", "rge", "rgt", "eq", "ne", "req", "rne"):
        c = l[1].const()
        if c is None:
            return None
        return {"ge": c >= 0, "rge": c >= 0, "rgt": c > 0, "eq": c == 0, "ne": c != 0,
                "req": c == 0, "rne": c != 0}[k]
    return None


def norm_lit(l):
    k = l[0]
    if k in ("eq", "ne"):
        return (k, _sgn_norm(l[1]))
    if k in ("req", "rne"):
        return (k, _monic(clear_inv(l[1])))
    if k == "ge" and len(l[1].t) <= 2:
        # a polynomial has no terms exactly when it is zero
        p, c = None, 0
        for m, v in l[1].t:
            if not m:
                c = v
            elif len(m) == 1 and m[0][1] == 1 and v in (1, -1) and m[0][0].kind == "len" and isinstance(m[0][0].args[0], tuple) and m[0][0].args[0][0] == "terms":
                p, w = m[0][0].args[0][1], v
            else:
                return l
        if p is not None and (w, c) == (1, -1):
            return norm_lit(("rne", p))
        if p is not None and (w, c) == (-1, 0):
            return norm_lit(("req", p))
    return l


def term_atom(a):
    """(polynomial, position, 0 for the coefficient and 1 for the monomial) of an element of a list of terms"""
    if a is not None and a.kind == "x":
        k = a.args[0]
        if isinstance(k, tuple) and k[0] == "f" and isinstance(k[1], tuple) and k[1][0] == "el" and isinstance(k[1][1], tuple) and k[1][1][0] == "terms":
            return k[1][1][1], k[1][2], k[2]
    return None


def lead(p):
    """the position of the leading term of a polynomial"""
    return P(atom("lead", (("terms", p),), "usize"))


def over_atom(p, a):
    """p/a if every term of p has the factor a"""
    out = ZERO
    if not p.t:
        return None
    for m, c in p.t:
        e = dict(m).get(a, 0)
        if e < 1:
            return None
        q = P(c)
        for b, k in m:
            k = k - 1 if b == a else k
            if k:
                q = q * power(P(b), k)
        out = out + q
    return out


def term_part(p, i, k):
    return P(atom("x", (("f", ("el", ("terms", p), i), k),), "Mono" if k else "F"))


def simplify_cases(cases):
    out = []
    for lits, p in cases:
        ls = []
        bad = False
        for l in lits:
            l = norm_lit(l)
            t = trivial(l)
            if t is False:
                bad = True
                break
            if t is None:
                ls.append(l)
        if bad:
            continue
        out.append((tuple(ls), p))
        if not ls:
            return ((tuple(ls), p),) if len(out) == 1 else tuple(out)
    return tuple(out)


# formulas --------------------------------------------------------------------------------------
def f_not(f):
    if f is True or f is False:
        return not f
    if f[0] == "lit":
        if f[1][0] == "d":
            return ("nd", f[1])
        return ("lit", neg(f[1]))
    if f[0] == "nd":
        return ("lit", f[1])
    if f[0] == "and":
        return f_or([f_not(x) for x in f[1]])
    return f_and([f_not(x) for x in f[1]])


def f_lit(l):
    l = norm_lit(l)
    t = trivial(l)
    return t if t is not None else ("lit", l)


def f_and(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == "and":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == "or":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def dnf(f):
    """list of tuples of literals"""
    if f is True:
        return [()]
    if f is False:
        return []
    if f[0] == "lit":
        return [(f[1],)]
    if f[0] == "nd":
        # other variants of an opaque enum: expanded by the caller's universe
        key = f[1][1]
        n = key[1] if isinstance(key, tuple) and len(key) > 1 and isinstance(key[1], int) else None
        raise ValueError("negated discriminant")
    if f[0] == "or":
        out = []
        for x in f[1]:
            out.extend(dnf(x))
        return out
    out = [()]
    for x in f[1]:
        d = dnf(x)
        out = [a + b for a in out for b in d]
    return out


# linear arithmetic -----------------------------------------------------------------------------
_MONO_BOUND = {}


def mono_nonneg(m):
    r = _MONO_BOUND.get(m)
    if r is None:
        r = all(e % 2 == 0 or (e > 0 and INT_BOUNDS.get(a.sort, (None,))[0] is not None and
                               INT_BOUNDS[a.sort][0] >= 0) or
                (e < 0 and INT_BOUNDS.get(a.sort, (None,))[0] == 1)
                for a, e in m)
        _MONO_BOUND[m] = r
    return r


def lin(p):
    d, c = {}, 0
    for m, k in p.t:
        if m:
            d[m] = k
        else:
            c = k
    return d, c


def _int_row(d, c):
    """a constraint scaled to integer coefficients (a positive factor)"""
    den = 1
    for v in d.values():
        if type(v) is not int:
            den = den * v.denominator // igcd(den, v.denominator)
    if type(c) is not int:
        den = den * c.denominator // igcd(den, c.denominator)
    if den != 1:
        d = {k: int(v * den) for k, v in d.items()}
        c = int(c * den)
    return d, c


class _Fm:
    """the rows of a linear system over numbered columns (the constant is column -1)"""

    def __init__(self, ges, eqs, integer):
        self.integer = integer
        self.col = {}
        self.solved = []        # (pivot column, its coefficient, row): equalities solved so far
        self.bad = False
        for d, c in eqs:
            self.add_eq(self.row(d, c))
            if self.bad:
                return
        self.ges = [(self.reduce(self.row(d, c)), s) for d, c, s in ges]

    def row(self, d, c):
        d, c = _int_row(d, c)
        col = self.col
        r = {}
        for m, v in d.items():
            i = col.get(m)
            if i is None:
                i = col[m] = len(col)
            r[i] = v
        if c:
            r[-1] = c
        return r

    def reduce(self, r):
        for v, a, e in self.solved:
            if v in r:
                r = self.elim(r, v, a, e)
        return r

    @staticmethod
    def elim(r, v, a, e):
        """r with column v removed by the equality e (coefficient a > 0 at v); r is scaled by a positive factor"""
        k = r[v]
        g = igcd(a, k)
        x, y = a // g, k // g
        o = {i: n * x for i, n in r.items()} if x != 1 else dict(r)
        for i, n in e.items():
            z = o.get(i, 0) - n * y
            if z:
                o[i] = z
            else:
                o.pop(i, None)
        return o

    def add_eq(self, r):
        r = self.reduce(r)
        vs = [i for i in r if i >= 0]
        if not vs:
            if r.get(-1, 0):
                self.bad = True
            return
        g = igcd(*[r[i] for i in vs])
        if g > 1:
            c = r.get(-1, 0)
            if c % g:
                if self.integer:
                    self.bad = True
                    return
                g = igcd(g, c)
            r = {i: n // g for i, n in r.items()}
        v = min(vs, key=lambda i: (abs(r[i]) != 1, i))
        if r[v] < 0:
            r = {i: -n for i, n in r.items()}
        self.solved.append((v, r[v], r))

    def infeasible(self, ge=(), eq=None, limit=400):
        """no solution of the system together with the given constraints"""
        if self.bad:
            return True
        rows = self.ges
        if eq is not None:
            n = len(self.solved)
            self.add_eq(self.row(*eq))
            try:
                if self.bad:
                    self.bad = False
                    return True
                if len(self.solved) > n:
                    v, a, e = self.solved[-1]
                    rows = [(self.elim(r, v, a, e), s) if v in r else (r, s) for r, s in rows]
                return self.run(rows, limit)
            finally:
                del self.solved[n:]
        return self.run(rows + [(self.reduce(self.row(d, c)), s) for d, c, s in ge], limit)

    def run(self, rows, limit):
        cur = {}
        integer = self.integer

        def add(r, s):
            c = r.pop(-1, 0)
            if not r:
                return c < 0 or (s and c <= 0)
            g = igcd(*r.values())
            if g > 1:
                r = {i: n // g for i, n in r.items()}
                c = c // g if integer else (c // g if c % g == 0 else Fraction(c, g))
            key = frozenset(r.items())
            old = cur.get(key)
            if old is not None and not (c < old[1] or (c == old[1] and s and not old[2])):
                return False
            cur[key] = (r, c, s)
            opp = cur.get(frozenset([(i, -n) for i, n in key]))
            if opp is not None:
                tot = c + opp[1]
                if tot < 0 or (tot == 0 and (s or opp[2])):
                    return True
            return False
        for r, s in rows:
            if add(dict(r), s):
                return True
        while cur:
            pn, nn = {}, {}
            for r, c, s in cur.values():
                for i, n in r.items():
                    if n > 0:
                        pn[i] = pn.get(i, 0) + 1
                    else:
                        nn[i] = nn.get(i, 0) + 1
            one = [i for i in pn if i not in nn] + [i for i in nn if i not in pn]
            if one:
                # columns bounded on one side only: their rows are vacuous
                one = set(one)
                cur = {k: x for k, x in cur.items() if not any(i in one for i in x[0])}
                continue
            v = min(pn, key=lambda i: (pn[i] * nn[i] - pn[i] - nn[i], i))
            pos, neg_, rest = [], [], []
            for x in cur.values():
                k = x[0].get(v, 0)
                (pos if k > 0 else neg_ if k < 0 else rest).append(x)
            if len(rest) + len(pos) * len(neg_) > limit:
                return False
            cur = {frozenset(x[0].items()): x for x in rest}
            for d1, c1, s1 in pos:
                a = d1[v]
                for d2, c2, s2 in neg_:
                    b = -d2[v]
                    g = igcd(a, b)
                    x, y = b // g, a // g
                    d = {i: n * x for i, n in d1.items()}
                    for i, n in d2.items():
                        z = d.get(i, 0) + n * y
                        if z:
                            d[i] = z
                        else:
                            del d[i]
                    c = c1 * x + c2 * y
                    if type(c) is not int:
                        if c.denominator != 1:
                            d = {i: n * c.denominator for i, n in d.items()}
                        c = c.numerator
                    if c:
                        d[-1] = c
                    if add(d, s1 or s2):
                        return True
        return False


def fm_infeasible(ges, eqs, integer=True, limit=400):
    """True if no assignment satisfies all p>=0 (ges: list of (dict,const,strict)) and p==0"""
    return _Fm(ges, eqs, integer).infeasible(limit=limit)


def _monos(p):
    return {m for m, _ in p.t if m}


_EMPTY = {}
MAXDEPTH = 3


def implied_by_range(fa):
    """a quantified fact without the literals its ranges imply; None: nothing is left"""
    triv = set()
    for b, lo, hi in fa[0]:
        triv.add(norm_lit(("ge", hi - 1 - P(b))))
        triv.add(norm_lit(("ge", P(b) - lo)))
    cases = tuple(tuple(l for l in c if norm_lit(l) not in triv) for c in fa[1])
    if any(not c for c in cases):
        return None
    return (fa[0], cases)


_LINEAR = {}
_NESTED = []


class Facts:
    """an immutable conjunction of literals, plus universally quantified facts over index ranges

    foralls: tuple of (var atom, lo, hi, cases) meaning
      for all lo <= var < hi: one of the cases (tuples of literals) holds
    """
    __slots__ = ("lits", "foralls", "_memo", "_rules", "_lin", "_h")

    def __init__(self, lits=frozenset(), foralls=()):
        self.lits = lits
        self.foralls = foralls
        self._memo = {}
        self._rules = None
        self._lin = None

    def __repr__(self):
        return "{" + ", ".join(sorted(show_lit(l) for l in self.lits)) + "}" + \
            "".join("; ALL %s: %s" % (", ".join("%s in [%s,%s)" % v for v in vs), " | ".join(" & ".join(show_lit(l) for l in c) for c in cs))
                    for vs, cs in self.foralls)

    # construction
    def add(self, l):
        """facts extended by l, or None if contradictory"""
        l = norm_lit(l)
        if l in self.lits or trivial(l) is True:
            return self
        d = self.decide(l)
        if d is False:
            return None
        if d is True and l[0] in ("ge", "eq", "ne"):
            # entailed: keep anyway only if it is an equality (drives rewriting)
            if l[0] != "eq":
                return self
        extra = self.radix(l)
        if extra is not None:
            f = self
            for x in extra:
                f = f.add(x)
                if f is None:
                    return None
            return f
        r = Facts(self.lits | {l}, self.foralls)
        r._memo = {k: v for k, v in self._memo.items() if v is not None}    # what is decided stays decided
        if l[0] in ("eq", "ge", "ne") and r.inconsistent(l):
            return None
        return r

    def add_all(self, ls):
        f = self
        for l in ls:
            f = f.add(l)
            if f is None:
                return None
        return f

    def add_forall(self, vars, cases):
        """vars: tuple of (atom, lo, hi), outermost first"""
        cases = tuple(tuple(norm_lit(l) for l in c) for c in cases)
        lvl = 1 + max([_bvl(cases)] + [max(_bvl(P(lo)), _bvl(P(hi))) for _, lo, hi in vars])
        m = {}
        out = []
        for k, (v, lo, hi) in enumerate(vars):
            S = Subst(dict(m))
            b = atom("bv", (lvl + k,), "usize")
            out.append((b, S.any(P(lo)), S.any(P(hi))))
            m[v] = P(b)
        cases = Subst(m).any(cases)
        fa = implied_by_range((tuple(out), cases))
        if fa is None:
            return self
        cases = fa[1]
        # sort for canonical comparison
        cases = tuple(sorted(set(tuple(sorted(set(c), key=show_lit)) for c in cases), key=lambda c: [show_lit(l) for l in c]))
        fa = (tuple(out), cases)
        if fa in self.foralls:
            return self
        r = Facts(self.lits, self.foralls + (fa,))
        r._memo = {k: v for k, v in self._memo.items() if v is not None}
        return r

    def subst(self, s):
        r = Facts(frozenset(), tuple(y for y in (implied_by_range(s.any(x)) for x in self.foralls) if y is not None))
        for l in sorted(self.lits, key=show_lit):
            l2 = norm_lit(s.any(l))
            t = trivial(l2)
            if t is True:
                continue
            if t is False:
                return None
            r = Facts(r.lits | {l2}, r.foralls)
        return r

    def fv(self):
        return fv(tuple(self.lits)) | fv(self.foralls)

    def inconsistent(self, l):
        ges, eqs = self._system([l[1]])
        return fm_infeasible(ges, eqs)

    # the linear system relevant to the given polynomials
    def _base(self):
        if self._lin is None:
            ints, nes, reals = [], [], []
            for l in self.lits:
                k = l[0]
                if k == "ge":
                    ints.append((l[1], False, _monos(l[1])))
                elif k == "eq":
                    ints.append((l[1], True, _monos(l[1])))
                elif k == "ne":
                    nes.append(l[1])
                elif k in ("rge", "rgt", "req"):
                    reals.append((l[1], k))
            self._lin = (ints, nes, reals)
        return self._lin

    def _system(self, ps, use_ne=True, extra=(), lazy=False):
        ints, nes, _ = self._base()
        seen = set()
        for p in ps:
            seen |= _monos(p)
        work = [(p, e, _monos(p)) for p, e in extra]
        pool = list(ints) + work
        chosen = []
        # axioms of the atoms involved
        done_atoms = set()
        todo = list(seen)
        while True:
            new = False
            rest = []
            for x in pool:
                if x[2] & seen:
                    chosen.append(x)
                    if not x[2] <= seen:
                        seen |= x[2]
                        new = True
                else:
                    rest.append(x)
            if len(rest) != len(pool):
                pool = rest
                new = True
            for m in list(seen):
                for a, _ in m:
                    if a not in done_atoms:
                        done_atoms.add(a)
                        for ax, iseq in self.axioms(a):
                            y = (ax, iseq, _monos(ax))
                            chosen.append(y)
                            if not y[2] <= seen:
                                seen |= y[2]
                                new = True
            if not new:
                break
        nes = [p for p in nes if _monos(p) & seen and _monos(p) <= seen] if use_ne else []
        if lazy:
            return (frozenset((p, e) for p, e, _ in chosen), frozenset(nes)), lambda: self._matrix(chosen, seen, nes)
        return self._matrix(chosen, seen, nes)

    def _matrix(self, chosen, seen, nes):
        ges, eqs = [], []
        for p, e, _ in chosen:
            d, c = lin(p)
            if e:
                eqs.append((d, c))
            else:
                ges.append((d, c, False))
        for m in seen:
            if len(m) == 1 and m[0][1] == 1:
                lo, hi = INT_BOUNDS.get(m[0][0].sort, (None, None))
                if lo is not None:
                    ges.append(({m: 1}, -lo, False))
                if hi is not None:
                    ges.append(({m: -1}, hi, False))
            elif mono_nonneg(m):
                ges.append(({m: 1}, 0, False))
        for p in nes:
            d, c = lin(p)
            # p != 0 and p >= 0 gives p >= 1
            if fm_infeasible(ges + [({m: -v for m, v in d.items()}, -c - 1 + 0, False)], eqs):
                ges.append((d, c - 1, False))
            elif fm_infeasible(ges + [(d, c - 1, False)], eqs):
                ges.append(({m: -v for m, v in d.items()}, -c - 1, False))
        return ges, eqs

    def axioms(self, a):
        k = a.kind
        if k == "len" and isinstance(a.args[0], tuple) and a.args[0][0] == "terms":
            p = a.args[0][1]
            if trivial(req(p)) is False or rne(p) in self.lits:
                return [(P(a) - 1, False)]
            if trivial(req(p)) is True or req(p) in self.lits:
                return [(P(a), True)]
            return []
        if k == "lead":
            p = a.args[0][1]
            if rne(p) in self.lits or rne(P(p)) in self.lits:
                return [(P(atom("len", a.args, "usize")) - 1 - P(a), False)]
            return []
        if k == "rank":
            t = term_atom(a.args[0].single())
            if t is not None and t[1] != lead(t[0]):
                return [(P(atom("rank", (term_part(t[0], lead(t[0]), 1),), a.sort)) - P(a), False)]
            return []
        if k in ("rem", "quot"):
            x, y = a.args
            q = P(atom("quot", a.args, a.sort))
            r = P(atom("rem", a.args, a.sort))
            out = [(x - y * q - r, True)]
            if a.sort == "nat":
                out.append((y - r - 1, False))
                # x < y*m: the quotient is below m
                b = y.single()
                if b is not None:
                    for l in self.lits:
                        if l[0] == "ge":
                            m = over_atom(l[1] + x + 1, b)
                            if m is not None:
                                out.append((m - 1 - q, False))
            return out
        if k == "gcd" and not a.args[0].t or k == "gcd" and not a.args[1].t:
            x = a.args[0] + a.args[1]
            if ("ge", x) in self.lits or ("ge", x - 1) in self.lits:
                return [(P(a) - x, True)]
            if ("ge", -x - 1) in self.lits or ("ge", -x) in self.lits:
                return [(P(a) + x, True)]
            return []
        if k == "gcd":
            for x in a.args:
                if ("ne", _sgn_norm(x)) in self.lits or ("ge", x - 1) in self.lits or ("ge", -x - 1) in self.lits:
                    return [(P(a) - 1, False)]
        if k == "pow":
            b = a.args[0]
            if b.const() is None and a.sort in ("int", "nat"):
                if ("ge", b - 1) in self.lits:
                    return [(P(a) - 1, False)]
        return []

    # field rewriting rules from equalities
    def rules(self):
        if self._rules is None:
            rs = {}
            for l in sorted(self.lits, key=show_lit):
                if l[0] == "req":
                    p = nf_rules(l[1], rs)
                    best = None
                    for m, c in p.t:
                        if len(m) == 1 and m[0][1] == 1:
                            a = m[0][0]
                            li = p.linear_in(a)
                            if li and li[0].const() is not None:
                                if best is None or (len(a.s), a.s) > (len(best.s), best.s):
                                    best = a
                    if best is not None:
                        c, r = p.linear_in(best)
                        rs = {k: subst(v, {best: -r * P(Fraction(1) / c.const())}) for k, v in rs.items()}
                        rs[best] = -r * P(Fraction(1) / c.const())
            self._rules = rs
        return self._rules

    def nf(self, p):
        """field normal form under the equalities known"""
        return nf_rules(p, self.rules())

    # deciding -----------------------------------------------------------------------------------
    def decide(self, l, depth=0):
        l = norm_lit(l)
        t = trivial(l)
        if t is not None:
            return t
        if l in self.lits:
            return True
        if l[0] != "d" and neg_n(l) in self.lits:
            return False
        key = l
        if key in self._memo:
            return self._memo[key]
        self._memo[key] = None      # guards against recursion
        r = self._decide(l, depth)
        if r is None and self.foralls and depth < MAXDEPTH:
            r = self._decide_inst(l, depth)
        if r is None and len(_NESTED) > 1:
            del self._memo[key]     # asked with a shortened search
        else:
            self._memo[key] = r
        return r

    def _decide(self, l, depth):
        k = l[0]
        if k == "b":
            return None
        if k == "d":
            for x in self.lits:
                if x[0] == "d" and x[1] == l[1] and x[2] != l[2]:
                    return False
            return None
        if k in ("ge", "eq", "ne"):
            return self._decide_int(l)
        return self._decide_real(l)

    def _decide_real(self, l):
        k, p = l
        q = clear_inv(self.nf(p))
        c = q.const()
        if k in ("req", "rne"):
            if c is not None:
                return (c == 0) == (k == "req")
            if self.nonzero(q):
                return k == "rne"
        elif c is not None:
            return c >= 0 if k == "rge" else c > 0
        reals = self._base()[2]
        if not reals and k in ("req", "rne"):
            return None
        ges, eqs = [], []
        for r, kk in reals:
            d, cc = lin(r)
            if kk == "req":
                eqs.append((d, cc))
            else:
                ges.append((d, cc, kk == "rgt"))
        monos = set()
        for r, _ in reals:
            monos |= _monos(r)
        monos |= _monos(p)
        for m in monos:
            if all(e % 2 == 0 for _, e in m):
                ges.append(({m: 1}, 0, False))
            elif all(INT_BOUNDS.get(a.sort, (None,))[0] is not None and INT_BOUNDS[a.sort][0] >= 0 for a, _ in m):
                ges.append(({m: 1}, 0, False))
        d, cc = lin(p)
        nd = {m: -v for m, v in d.items()}
        if k == "rge":
            if fm_infeasible(ges + [(nd, -cc, True)], eqs, False):
                return True
            if fm_infeasible(ges + [(d, cc, False)], eqs, False):
                return False
        elif k == "rgt":
            if fm_infeasible(ges + [(nd, -cc, False)], eqs, False):
                return True
            if fm_infeasible(ges + [(d, cc, True)], eqs, False):
                return False
            if self.nonzero(q) and fm_infeasible(ges + [(nd, -cc, True)], eqs, False):
                return True
        else:
            pos = fm_infeasible(ges + [(nd, -cc, False)], eqs, False)
            ng = fm_infeasible(ges + [(d, cc, False)], eqs, False)
            if pos or ng:
                return k == "rne"
            if fm_infeasible(ges + [(nd, -cc, True)], eqs, False) and fm_infeasible(ges + [(d, cc, True)], eqs, False):
                return k == "req"
        return None

    def nonzero(self, p):
        """is the field element known to be nonzero?"""
        if ("rne", _monic(p)) in self.lits:
            return True
        c = p.const()
        if c is not None:
            return c != 0
        if len(p.t) == 2 and p.t[0][1] + p.t[1][1] == 0:
            # two terms of a polynomial have different monomials
            u, v = (term_atom(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None for m, _ in p.t)
            if u is not None and v is not None and u[0] == v[0] and u[2] == v[2] == 1 and self.decide(ne(u[1], v[1])) is True:
                return True
        if len(p.t) == 1:
            for a, e in p.t[0][0]:
                x = P(a)
                if a.kind == "x" and a.sort == "F" and term_atom(a) is not None and term_atom(a)[2] == 0:
                    continue        # no term has coefficient zero
                if ("rne", x) in self.lits or self.decide(("rgt", x)) or self.decide(("rgt", -x)):
                    continue
                if a.kind == "inv" or a.sort in ("pos", "Mono") or e < 0:
                    continue
                if a.kind == "pow" and self.nonzero(a.args[0]):
                    continue
                if a.kind == "el" and self._decide_inst(("rne", x), 1):
                    continue
                return False
            return True
        for l in self.lits:
            if l[0] == "rne" and _monic(clear_inv(self.nf(l[1]))) == _monic(p):
                return True
        return False

    def _linear(self, k, p):
        """what linear reasoning over the connected facts says (remembered across fact sets)"""
        key, build = self._system([p], lazy=True)
        key = (k, p, key)
        if key in _LINEAR:
            return _LINEAR[key]
        F = _Fm(*build(), True)
        d, c = lin(p)
        nd = {m: -v for m, v in d.items()}
        r = None
        if k == "ge":
            if F.infeasible([(nd, -c - 1, False)]):
                r = True
            elif F.infeasible([(d, c, False)]):
                r = False
        else:
            up = F.infeasible([(d, c - 1, False)])                  # p <= 0
            if up and F.infeasible([(nd, -c - 1, False)]):          # p >= 0
                r = True
            elif F.infeasible(eq=(d, c)):
                r = False
        if len(_LINEAR) > 400000:
            _LINEAR.clear()
        _LINEAR[key] = r
        return r

    def _decide_int(self, l):
        k, p = l
        if k == "ge":
            r = self._linear(k, p)
            return self._nonlinear_ge(p) if r is None else r
        r = self._linear("eq", p)
        if r is not None:
            return r == (k == "eq")
        if len(p.t) == 1 and len(p.t[0][0]) > 1 or (len(p.t) == 1 and p.t[0][0][0][1] != 1):
            # a product is zero exactly when a factor is
            rs = [self.decide(("eq", P(a))) for a, e in p.t[0][0]]
            if any(r is True for r in rs):
                return k == "eq"
            if all(r is False for r in rs):
                return k == "ne"
        if any(len(m) > 1 for m, _ in p.t):
            for A, B, dd in self._radix_splits(p):
                za, zb = self.decide(("eq", A)), self.decide(("eq", B))
                if za is False or zb is False:
                    return k == "ne"
                if za and zb:
                    return k == "eq"
        return None

    def _radix_splits(self, p):
        """(A,B,d) with p = A*d + B, d > 0 and -d < B < d"""
        cand = set()
        for m, _ in p.t:
            if len(m) > 1 or (m and m[0][1] > 1):
                for a, e in m:
                    if e > 0 and a.sort in INT_BOUNDS:
                        cand.add(a)
        for d in sorted(cand, key=lambda a: a.s):
            A, B = split_by(p, d)
            if not A.t:
                continue
            for k in (0, 1, -1):
                B2 = B + k * P(d)
                A2 = A - k
                if self.decide(("ge", P(d) - 1 - B2)) and self.decide(("ge", P(d) - 1 + B2)):
                    yield A2, B2, d
                    break

    def _nonlinear_ge(self, p):
        if len(_NESTED) > 1:
            return None
        _NESTED.append(p)
        try:
            return self._products_ge(p)
        finally:
            _NESTED.pop()

    def _products_ge(self, p):
        if not any(len(m) > 1 or m[0][1] > 1 for m, _ in p.t if m):
            return None
        cand = set()
        for m, _ in p.t:
            if len(m) > 1 or (m and m[0][1] > 1):
                for a, e in m:
                    if e > 0 and a.sort in INT_BOUNDS and INT_BOUNDS[a.sort][0] is not None and INT_BOUNDS[a.sort][0] >= 0:
                        cand.add(a)
        for d in sorted(cand, key=lambda a: a.s):
            A, B = split_by(p, d)
            for k in (0, 1, -1, 2):
                # p = (A-k)*d + (B + k*d)
                if self.decide(("ge", A - k)) and self.decide(("ge", B + k * P(d))):
                    return True
                if self.decide(("ge", -(A - k))) and self.decide(("ge", -(B + k * P(d)) - 1)):
                    return False
        return None

    def radix(self, l):
        """a list of literals equivalent to l by the mixed-radix rule, or None"""
        if l[0] not in ("eq", "ge") or not any(len(m) > 1 for m, _ in l[1].t):
            return None
        if l[0] == "eq":
            for A, B, d in self._radix_splits(l[1]):
                return [("eq", A), ("eq", B)]
            return None
        p = l[1]
        cand = set()
        for m, _ in p.t:
            if len(m) > 1:
                for a, e in m:
                    if a.sort in INT_BOUNDS:
                        cand.add(a)
        for d in sorted(cand, key=lambda a: a.s):
            A, B = split_by(p, d)
            if not A.t:
                continue
            for k in (0, 1, -1):
                B2, A2 = B + k * P(d), A - k
                if self.decide(("ge", B2)) and self.decide(("ge", P(d) - 1 - B2)):
                    return [("ge", A2)]
        return None

    # instantiation of the quantified facts -----------------------------------------------------
    def candidates(self, x):
        """values for the bound variables suggested by the indices occurring in x"""
        out = []
        for a in sorted(fv(x), key=lambda a: a.s):
            out.append(a)
        return out

    def instances(self, x):
        """instantiated cases of the foralls relevant to x"""
        res = []
        targets = [a for a in fv(x)]
        for vs, cases in self.foralls:
            vars = [v for v, _, _ in vs]
            vset = set(vars)
            cand = []
            partial = []
            for pa in fv(cases):
                if pa in vset or not (vset & fv(pa)):
                    continue
                for ta in targets:
                    if ta.kind == pa.kind and ta.sort == pa.sort and len(ta.args) == len(pa.args):
                        v = unify(pa.args, ta.args, vset)
                        if v:
                            (cand if len(v) == len(vars) else partial).append(v)
            for i, p in enumerate(partial):
                for q in partial[i + 1:]:
                    if all(p[k] == q[k] for k in p if k in q):
                        r = dict(p)
                        r.update(q)
                        if len(r) == len(vars):
                            cand.append(r)
            seen = []
            for v in cand:
                if v in seen:
                    continue
                seen.append(v)
                if len(seen) > 8:
                    break
                S = Subst(dict(v))
                if all(self.decide(("ge", v[b] - S.any(lo)), MAXDEPTH) and self.decide(("ge", S.any(hi) - 1 - v[b]), MAXDEPTH)
                       for b, lo, hi in vs):
                    res.append([[norm_lit(S.any(l)) for l in c] for c in cases])
        return res

    def _decide_inst(self, l, depth):
        insts = self.instances(l)
        if not insts:
            return None
        base = Facts(self.lits, ())
        pend = []
        for cs in insts:
            if len(cs) == 1:
                for x in cs[0]:
                    b2 = base.add(x)
                    if b2 is None:
                        return None     # contradictory facts: leave undecided
                    base = b2
            else:
                pend.append(cs)
        r = base.decide(l)
        if r is not None:
            return r
        if not pend:
            # instances may themselves mention further indices
            if depth + 1 < MAXDEPTH:
                b = Facts(base.lits, self.foralls)
                if b.lits != self.lits:
                    return b.decide(l, depth + 1)
            return None
        bases = [base]
        for cs in pend[:3]:
            nb = []
            for b in bases:
                for c in cs:
                    x = b.add_all(c)
                    if x is not None:
                        nb.append(x)
            bases = nb
        rs = {b.decide(l) for b in bases}
        if len(rs) == 1:
            return rs.pop()
        return None


def neg_n(l):
    return norm_lit(neg(l))


def nf_rules(p, rs):
    if not rs:
        return p
    for _ in range(4):
        q = subst(p, rs)
        if q == p:
            return q
        p = q
    return p


def unify(pat, tgt, vs):
    """a dict binding variables of vs so that pat == tgt (a guess is fine: the instance is checked
    to be in range before use), {} if no variable matters, or None"""
    if isinstance(pat, tuple) and isinstance(tgt, tuple):
        if len(pat) != len(tgt):
            return None
        sol = {}
        for a, b in zip(pat, tgt):
            v = unify(a, b, vs)
            if v is None:
                return None
            for k, x in v.items():
                if k in sol and sol[k] != x:
                    return None
                sol[k] = x
        return sol
    if isinstance(pat, Poly) and isinstance(tgt, Poly):
        occ = [v for v in vs if occurs(v, pat)]
        if not occ:
            return {} if pat == tgt else None
        if len(occ) == 1:
            var = occ[0]
            li = pat.linear_in(var)
            if li is not None:
                c = li[0].const()
                if c in (1, -1):
                    return {var: (tgt - li[1]) * c}
                if li[0].t and c is None:
                    # mixed radix: the multiple of the coefficient in the target
                    d = li[0].single()
                    if d is not None:
                        A, B = split_by(tgt - li[1], d)
                        if not B.t:
                            return {var: A}
                return None
        elif len(occ) == 2:
            for v1, v2 in (occ, occ[::-1]):
                l1 = pat.linear_in(v1)
                l2 = pat.linear_in(v2)
                if l1 and l2 and l2[0].const() in (1, -1) and not occurs(v1, l2[0]) and not occurs(v2, l1[0]):
                    ds = [m[0][0] for m, c in l1[0].t if len(m) == 1 and m[0][1] == 1 and c == 1]
                    for d in ds:
                        rest = pat - P(v1) * l1[0] - P(v2) * l2[0]
                        A, B = split_by(tgt - rest, d)
                        return {v1: A, v2: (tgt - rest - A * l1[0]) * l2[0].const()}
            return None
        pa, ta = pat.single(), tgt.single()
        if pa is not None and ta is not None and pa.kind == ta.kind:
            return unify(pa.args, ta.args, vs)
        return None
    if isinstance(pat, Atom) and isinstance(tgt, Atom):
        if pat is tgt:
            return {}
        if pat.kind == tgt.kind:
            return unify(pat.args, tgt.args, vs)
        return None
    return {} if pat == tgt else None


def show_lit(l):
    k = l[0]
    if k in ("ge", "rge"):
        return "%r>=0" % l[1]
    if k == "rgt":
        return "%r>0" % l[1]
    if k in ("eq", "req"):
        return "%r=0" % l[1]
    if k in ("ne", "rne"):
        return "%r!=0" % l[1]
    if k == "b":
        return ("" if l[2] else "!") + show(l[1])
    return "%s is #%s" % (show(l[1]), l[2])
