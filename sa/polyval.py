"""Values of monomials and polynomials in three variables, for valuations."""
from fractions import Fraction


def whole(c):
    """a rational, as an int if it is one"""
    return c.numerator if c.__class__ is Fraction and c.denominator == 1 else c


class PV:
    """a (Laurent) polynomial: exponents -> coefficient, in the order in which the terms were added"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    @staticmethod
    def of(x):
        if isinstance(x, PV):
            return x.d
        return {(0, 0, 0): x} if x != 0 else {}

    @staticmethod
    def make(d):
        """numbers stay numbers"""
        if not d:
            return 0
        if len(d) == 1 and (0, 0, 0) in d:
            c = d[(0, 0, 0)]
            return c if c.__class__ is int else c.numerator if c.denominator == 1 else c
        return PV(d)

    def __add__(self, o):
        d = dict(self.d)
        for m, c in PV.of(o).items():
            v = d.get(m, 0) + c
            if v == 0:
                del d[m]
            else:
                d[m] = v
        return PV.make(d)

    def __radd__(self, o):
        return PV(PV.of(o)) + self

    def __neg__(self):
        return PV({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return PV(PV.of(o)) + (-self)

    def __mul__(self, o):
        if not isinstance(o, PV):
            if o == 0:
                return 0
            if o.__class__ is Fraction and o.denominator == 1:
                o = o.numerator
            return PV({m: whole(c * o) for m, c in self.d.items()})
        if len(self.d) == 1 and len(o.d) == 1:
            (m, c), = self.d.items()
            (n, e), = o.d.items()
            return PV.make({(m[0] + n[0], m[1] + n[1], m[2] + n[2]): whole(c * e)})
        d = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = (m[0] + n[0], m[1] + n[1], m[2] + n[2])
                v = whole(d.get(k, 0) + c * e)
                if v == 0:
                    d.pop(k, None)
                else:
                    d[k] = v
        return PV.make(d)

    __rmul__ = __mul__

    def inv(self):
        if len(self.d) != 1:
            raise ZeroDivisionError
        (m, c), = self.d.items()
        return PV({(-m[0], -m[1], -m[2]): whole(Fraction(1) / c)})

    def __truediv__(self, o):
        return self * (o.inv() if isinstance(o, PV) else Fraction(1) / o)

    def __rtruediv__(self, o):
        return self.inv() * o

    def __pow__(self, e):
        e = int(e)
        if e < 0:
            return self.inv() ** -e
        r = 1
        for _ in range(e):
            r = self * r
        return r

    def __eq__(self, o):
        if isinstance(o, PV):
            return self.d == o.d
        return False        # numbers are never represented this way

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def __repr__(self):
        return " + ".join("%s%s" % (c, "".join("*%s^%d" % ("xyz"[i], e) for i, e in enumerate(m) if e)) for m, c in self.d.items())


def mono(m):
    return PV.make({tuple(m): 1})


def exps(x):
    """the exponents of a monomial, or None"""
    if isinstance(x, PV):
        if len(x.d) == 1:
            (m, c), = x.d.items()
            return m if c == 1 else None
        return None
    return (0, 0, 0) if x == 1 else None


def terms(x):
    """the terms, (coefficient, monomial)"""
    return [(c, mono(m)) for m, c in PV.of(x).items()]


def rank(m, kind):
    """the place of a monomial in one of three orders: lex, graded lex, graded reverse lex"""
    b = 1000
    x, y, z = m
    if kind == 0:
        return (x * b + y) * b + z
    if kind == 1:
        return ((x + y + z) * b + x) * b + y
    return ((x + y + z) * b - z) * b - y
