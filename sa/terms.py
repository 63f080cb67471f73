"""Symbolic value numbers of the abstract interpreter.

A number (machine integer or field element) is a polynomial over interned atoms.  Atoms are the
inputs of the analysed function and uninterpreted or partly interpreted functions of other
numbers (quotients, sums over a range, first index of a scan, ...).  Equal value numbers denote
equal values; there is no evaluation of program code here.
"""
from fractions import Fraction

# ---------------------------------------------------------------- atoms
_ATOMS = {}


class Atom:
    __slots__ = ("kind", "args", "sort", "s", "_h", "bvl", "_fv")

    def __repr__(self):
        return self.s


def show(x):
    if isinstance(x, tuple):
        return "(" + ",".join(show(y) for y in x) + ")"
    return repr(x) if not isinstance(x, str) else x


def atom(kind, args=(), sort="int"):
    key = (kind, args, sort)
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.sort = kind, args, sort
        a.s = kind + (show(args) if args else "")
        a._h = hash(key)
        a.bvl = args[0] if kind == "bv" else _bvl(args)
        a._fv = None
        _ATOMS[key] = a
    return a


def _bvl(x):
    """highest level of a bound variable occurring in x (0: none)"""
    if isinstance(x, Poly):
        m = 0
        for mono, _ in x.t:
            for a, _e in mono:
                if a.bvl > m:
                    m = a.bvl
        return m
    if isinstance(x, tuple):
        m = 0
        for y in x:
            v = _bvl(y)
            if v > m:
                m = v
        return m
    if hasattr(x, "bvl"):
        return x.bvl
    return 0


INT_BOUNDS = {
    "usize": (0, None), "u64": (0, None), "u128": (0, None), "u32": (0, 2**32 - 1),
    "u16": (0, 65535), "u8": (0, 255), "nat": (0, None), "pos": (1, None), "bool": (0, 1),
    "i8": (-128, 127), "i16": (-32768, 32767), "i32": (-2**31, 2**31 - 1),
}
FIELD_SORTS = {"F", "f32", "f64", "Mono", "Pol"}      # Mono: a monomial, Pol: a polynomial (see checks/poly.py)


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("t", "_h", "_s")

    def __init__(self, t):
        self.t = t            # tuple of (mono, coef), sorted by the monomial's text
        self._h = None
        self._s = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.t)
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        if self._s is None:
            if not self.t:
                self._s = "0"
            else:
                out = []
                for m, c in self.t:
                    ms = "*".join(a.s if e == 1 else "%s^%d" % (a.s, e) for a, e in m)
                    if not m:
                        out.append(str(c))
                    elif c == 1:
                        out.append(ms)
                    elif c == -1:
                        out.append("-" + ms)
                    else:
                        out.append("%s*%s" % (c, ms))
                self._s = "+".join(out).replace("+-", "-")
        return self._s

    # arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t:
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return mk(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly(tuple((m, -c) for m, c in self.t))

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if o.t == ONE.t:
            return self
        if self.t == ONE.t:
            return o
        d = {}
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m = mmul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return mk(d)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    # queries
    def const(self):
        """the constant value, or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and not self.t[0][0]:
            return self.t[0][1]
        return None

    def atoms(self):
        """atoms at the top level"""
        s = set()
        for m, _ in self.t:
            for a, _e in m:
                s.add(a)
        return s

    def single(self):
        """the atom if this polynomial is just one atom"""
        if len(self.t) == 1:
            m, c = self.t[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def linear_in(self, a):
        """(coef, rest) with self = coef*a + rest and no other occurrence of a, else None"""
        c, r = {}, {}
        for m, k in self.t:
            hit = None
            for b, e in m:
                if b is a:
                    hit = e
                elif occurs(a, b):
                    return None
            if hit is None:
                r[m] = k
            elif hit == 1:
                c[tuple(x for x in m if x[0] is not a)] = k
            else:
                return None
        return mk(c), mk(r)


def norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def mkey(m):
    return [(a.s, e) for a, e in m]


def mk(d):
    items = [(m, norm_c(c)) for m, c in d.items() if c]
    if len(items) > 1:
        items.sort(key=lambda x: mkey(x[0]))
    return Poly(tuple(items))


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].s))


Atom.__hash__ = lambda self: self._h
ZERO = Poly(())
ONE = Poly((((), 1),))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, Fraction)):
        return Poly((((), norm_c(x)),)) if x else ZERO
    if isinstance(x, Atom):
        return Poly(((((x, 1),), 1),))
    raise TypeError("not a number: %s" % repr(x)[:200])


def sym(kind, args=(), sort="int"):
    return P(atom(kind, args, sort))


# ---------------------------------------------------------------- occurrence and substitution
def fv(x):
    """all atoms occurring in x, at any depth"""
    if isinstance(x, Atom):
        if x._fv is None:
            s = {x}
            for y in x.args:
                s |= fv(y)
            x._fv = frozenset(s)
        return x._fv
    if isinstance(x, Poly):
        s = set()
        for m, _ in x.t:
            for a, _e in m:
                s |= fv(a)
        return s
    if isinstance(x, tuple):
        s = set()
        for y in x:
            s |= fv(y)
        return s
    if hasattr(x, "fv"):
        return x.fv()
    return frozenset()


def occurs(a, x):
    return a in fv(x)


_REBUILD = {}


def rebuild(kind):
    def deco(f):
        _REBUILD[kind] = f
        return f
    return deco


def make(kind, args, sort="int"):
    """smart constructor: the polynomial denoted by an atom after simplification"""
    f = _REBUILD.get(kind)
    if f is not None:
        return f(args, sort)
    return sym(kind, args, sort)


class Subst:
    """simultaneous substitution of atoms by polynomials (memoised)"""

    def __init__(self, m):
        self.m = m
        self.memo = {}
        self.keys = set(m)

    def poly(self, p):
        r = self.memo.get(p)
        if r is not None:
            return r
        if not self.keys & fv(p):
            r = p
        else:
            r = ZERO
            for m, c in p.t:
                x = P(c)
                for a, e in m:
                    y = self.atom(a)
                    x = x * (y ** e if e > 0 else inv_poly(y) ** (-e))
                r = r + x
        self.memo[p] = r
        return r

    def atom(self, a):
        r = self.m.get(a)
        if r is not None:
            return P(r)
        if not self.keys & fv(a):
            return P(a)
        return make(a.kind, tuple(self.any(x) for x in a.args), a.sort)

    def any(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        if isinstance(x, Atom):
            y = self.atom(x)
            b = y.single()
            return b if b is not None else y
        if hasattr(x, "subst"):
            return x.subst(self)
        return x


def subst(x, m):
    if not m:
        return x
    return Subst(m).any(x)


# ---------------------------------------------------------------- division
def inv_poly(p):
    """multiplicative inverse in the field of fractions (p is assumed nonzero)"""
    if len(p.t) == 1:
        m, c = p.t[0]
        return Poly(((tuple((a, -e) for a, e in m), norm_c(Fraction(1) / c)),))
    if not p.t:
        return sym("inv", (ZERO,), "F")
    # make the leading coefficient one, so that equal denominators share an atom
    c = p.t[0][1]
    q = p * P(Fraction(1) / c)
    return sym("inv", (q,), "F") * P(Fraction(1) / c)


@rebuild("inv")
def _inv(args, sort):
    return inv_poly(args[0])


def div_exact(p, q):
    """r with p == r*q as polynomials with nonnegative exponents, or None"""
    if not q.t:
        return None
    if not p.t:
        return ZERO
    if len(q.t) == 1:
        m, c = q.t[0]
        out = {}
        for pm, pc in p.t:
            d = dict(pm)
            for a, e in m:
                d[a] = d.get(a, 0) - e
                if d[a] < 0:
                    return None
            f = Fraction(pc) / c
            if f.denominator != 1:
                return None
            out[tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].s))] = f.numerator
        return mk(out)
    # multivariate division by the leading monomial under a lex order on atom names
    def lead(x):
        return max(x.t, key=lambda mc: _lexkey(mc[0], order))
    order = sorted(p.atoms() | q.atoms(), key=lambda a: a.s)
    lm, lc = lead(q)
    r, out, n = p, ZERO, 0
    while r.t:
        n += 1
        if n > 60:
            return None
        m, c = lead(r)
        d = dict(m)
        for a, e in lm:
            d[a] = d.get(a, 0) - e
            if d[a] < 0:
                return None
        f = Fraction(c) / lc
        if f.denominator != 1:
            return None
        t = mk({tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].s)): f.numerator})
        out = out + t
        r = r - t * q
    return out


def _lexkey(m, order):
    d = dict(m)
    return [d.get(a, 0) for a in order]


def split_by(p, d):
    """(A, B) with p = A*d + B where B collects the monomials without the atom d"""
    A, B = {}, {}
    for m, c in p.t:
        for a, e in m:
            if a is d and e >= 1:
                mm = dict(m)
                mm[a] -= 1
                A[tuple(sorted(((x, y) for x, y in mm.items() if y), key=lambda z: z[0].s))] = c
                break
        else:
            B[m] = c
    return mk(A), mk(B)


# ---------------------------------------------------------------- sums and products over ranges
def bind(var, *xs):
    """abstract atom `var` out of xs with a canonical bound variable; returns (bv, xs')"""
    lvl = 1 + max([_bvl(x) for x in xs] + [0])
    bv = atom("bv", (lvl,), "usize")
    s = Subst({var: P(bv)})
    return (bv,) + tuple(s.any(x) for x in xs)


def Sum(lo, hi, var, body):
    """sum of body over lo <= var < hi (empty if hi <= lo)"""
    lo, hi, body = P(lo), P(hi), P(body)
    if not body.t or lo == hi:
        return ZERO
    n = (hi - lo).const()
    if n is not None and n <= 6:
        r = ZERO
        for k in range(max(0, int(n))):
            r = r + subst(body, {var: lo + k})
        return r
    out = ZERO
    groups = {}
    for m, c in body.t:
        dep = tuple(x for x in m if occurs(var, x[0]))
        free = tuple(x for x in m if not occurs(var, x[0]))
        groups.setdefault(dep, {})[free] = c
    for dep, free in groups.items():
        f = mk(free)
        if not dep:
            out = out + f * (hi - lo)
        else:
            b = mk({dep: 1})
            bv, bb = bind(var, b)
            out = out + f * make("sum", (lo, hi, bv, bb), sort_of(b))
    return out


@rebuild("sum")
def _sum(args, sort):
    lo, hi, bv, body = args
    if body.const() is not None or not occurs(bv, body):
        return (hi - lo) * body
    n = (hi - lo).const()
    if n is not None and n <= 6:
        r = ZERO
        for k in range(max(0, int(n))):
            r = r + subst(body, {bv: lo + k})
        return r
    if len(body.t) != 1 or body.t[0][1] != 1 or any(not occurs(bv, a) for a, _ in body.t[0][0]):
        v = atom("tmpbv", (), "usize")
        return Sum(lo, hi, v, subst(body, {bv: P(v)}))
    # T(el(s, i)) summed over the whole sequence is the denotation of the sequence
    a = atom("sum", (lo, hi, bv, body), sort)
    return P(a)


def Prod(lo, hi, var, body):
    lo, hi, body = P(lo), P(hi), P(body)
    if body == ONE or lo == hi:
        return ONE
    n = (hi - lo).const()
    if n is not None and n <= 6:
        r = ONE
        for k in range(max(0, int(n))):
            r = r * subst(body, {var: lo + k})
        return r
    bv, bb = bind(var, body)
    return make("prod", (lo, hi, bv, bb), sort_of(body))


@rebuild("prod")
def _prod(args, sort):
    lo, hi, bv, body = args
    if body == ONE or lo == hi:
        return ONE
    n = (hi - lo).const()
    if n is not None and n <= 6:
        r = ONE
        for k in range(max(0, int(n))):
            r = r * subst(body, {bv: lo + k})
        return r
    return sym("prod", (lo, hi, bv, body), sort)


def sort_of(p):
    for a in p.atoms():
        if a.sort in FIELD_SORTS:
            return a.sort
    nonneg = all(c >= 0 and all(a.sort in INT_BOUNDS and INT_BOUNDS[a.sort][0] is not None
                               and INT_BOUNDS[a.sort][0] >= 0 for a, _ in m) for m, c in p.t)
    return "nat" if nonneg else "int"


def merge_sums(p):
    """join sums over adjacent ranges and absorb boundary terms: canonical form for comparison"""
    changed = True
    n = 0
    while changed and n < 30:
        changed = False
        n += 1
        for m, c in p.t:
            for a, e in m:
                if a.kind == "sum" and e == 1:
                    lo, hi, bv, body = a.args
                    rest = mk({tuple(x for x in m if x[0] is not a): c})
                    d = dict(p.t)
                    # absorb the term just below the range, and above it
                    for newlo, newhi, at in ((lo - 1, hi, lo - 1), (lo, hi + 1, hi)):
                        edge = rest * subst(body, {bv: at})
                        if all(mm in d and (d[mm] == cc) for mm, cc in edge.t):
                            p = p - edge - rest * P(a) + rest * make("sum", (newlo, newhi, bv, body), a.sort)
                            changed = True
                            break
                    if changed:
                        break
            if changed:
                break
    return p


# ---------------------------------------------------------------- if-then-else on numbers
def ite(cases):
    """cases: tuple of (tuple of literals, Poly), exhaustive and disjoint"""
    ps = {p for _, p in cases}
    if len(ps) == 1:
        return cases[0][1]
    return sym("ite", tuple((tuple(l), p) for l, p in cases), sort_of(cases[0][1] + cases[-1][1]))


@rebuild("ite")
def _ite(args, sort):
    from .facts import simplify_cases
    cs = simplify_cases(args)
    if not cs:
        # no case applies: the value of an expression outside its domain
        return sym("undef", ("no case",) + tuple(p for _, p in args), sort)
    if len(cs) == 1:
        return cs[0][1]
    return ite(cs)


# ---------------------------------------------------------------- partly interpreted integers
def gcd_term(a, b):
    def posn(p):
        return -p if p.t and p.t[0][1] < 0 else p
    a, b = posn(P(a)), posn(P(b))
    if a.const() is not None and b.const() is not None:
        import math
        return P(math.gcd(int(a.const()), int(b.const())))
    if a == ONE or b == ONE:
        return ONE
    # gcd(a, b mod a) = gcd(a, b), and gcd(a, b + k*a) = gcd(a, b) for the simplest b
    for x, y in ((a, b), (b, a)):
        r = y.single()
        if r is not None and r.kind == "rem":
            n, d = r.args
            if d == x or d == -x:
                return gcd_term(x, n)
        if x.t and len(y.t) > 1:
            m, c = x.t[0]
            for m2, c2 in y.t:
                if m2 == m and c2 % c == 0:
                    y2 = y - x * (c2 // c)
                    if len(y2.t) < len(y.t):
                        return gcd_term(x, y2)
    if a == b:
        return gcd_term(a, ZERO)
    if repr(a) > repr(b):
        a, b = b, a
    return sym("gcd", (a, b), "nat")


@rebuild("gcd")
def _gcd(args, sort):
    return gcd_term(*args)


def quot(a, b):
    """truncating machine division"""
    a, b = P(a), P(b)
    ca, cb = a.const(), b.const()
    if cb == 1:
        return a
    if cb == -1:
        return -a
    if ca is not None and cb:
        q = abs(ca) // abs(cb)
        return P(q if (ca < 0) == (cb < 0) else -q)
    if not a.t:
        return ZERO
    q = div_exact(a, b)
    if q is not None and cb is None:
        return q
    if q is not None:
        return q
    if b.t and b.t[0][1] < 0:
        return -quot(a, -b)
    g = b.single()
    if g is not None and g.kind == "gcd":
        # exact: the numerator is a multiple of one of the arguments of the gcd
        for x in g.args:
            if x.t and div_exact(a, x) is not None:
                return a * inv_poly(b)
    sort = "nat" if sort_of(a) == "nat" and sort_of(b) == "nat" else "int"
    return sym("quot", (a, b), sort)


@rebuild("quot")
def _quot(args, sort):
    return quot(*args)


def rem(a, b):
    a, b = P(a), P(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb:
        return P((abs(ca) % abs(cb)) * (1 if ca >= 0 else -1))
    if cb in (1, -1):
        return ZERO
    if not a.t or div_exact(a, b) is not None:
        return ZERO
    sort = "nat" if sort_of(a) == "nat" and sort_of(b) == "nat" else "int"
    return sym("rem", (a, b), sort)


@rebuild("rem")
def _rem(args, sort):
    return rem(*args)


def power(b, e):
    """b to the (nonnegative) power e"""
    b, e = P(b), P(e)
    ce = e.const()
    if ce is not None and 0 <= ce <= 8:
        return b ** int(ce)
    if b == ONE:
        return ONE
    sort = sort_of(b)
    if len(b.t) == 1:
        m, c = b.t[0]
        r = ONE
        if c < 0:
            r = r * sym("pow", (P(-1), e), "int")
            c = -c
        if c != 1:
            r = r * sym("pow", (P(c), e), "pos")
        for a, k in m:
            x = sym("pow", (P(a), e), sort if sort in FIELD_SORTS else ("nat" if sort == "nat" else "int"))
            r = r * (x ** k if k > 0 else inv_poly(x) ** (-k))
        return r
    return sym("pow", (b, e), sort)


@rebuild("pow")
def _pow(args, sort):
    return power(*args)


def is_field(p):
    return any(a.sort in FIELD_SORTS for a in p.atoms())
