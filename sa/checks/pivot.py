"""C08, C09: the pivot comparison and approximate equality."""
from .common import *
from .linalg import mat_inputs, mexplore, wmat, wint
from .elim import zero_by_rank, rank, lits
from . import num
from ..witness import W, NoValue, Reject
from ..replay import hold
import random

def assign(w, p, v):
    """give the input value number p the value v"""
    w.touched = []
    w.num(P(p))
    w.base[w.touched[-1]] = v


def on_values(S, fn, what, o, prepare, bad, tries=400):
    """a violation if one of the prepared valuations takes the path of o and is bad"""
    for t in range(tries):
        w = W(random.Random(t), S.types)
        w.wide = t % 3 == 2
        w.strict = True
        try:
            prepare(w)
            if hold(w, o.facts) and bad(w):
                S.violate(fn, what, "does not hold on the path %s" % repr(o.facts)[:500],
                          {show(k[0]): str(v) for k, v in w.base.items() if isinstance(k, tuple) and len(k) == 2})
                return True
        except (NoValue, Reject, Undecided, ZeroDivisionError, OverflowError, IndexError):
            continue
    return False


LESS, EQUAL, GREATER = 0, 1, 2


def comparison(S, ty):
    r = the(S, ty, "StabilityCmp", "stability_cmp")
    if r is None:
        return
    fn = label(r)
    con = None
    if ty == "Rational":
        F, ins = num.rat_inputs(S, r)
        con = num.gcd_contract(S)
        is_zero = lambda x: [eq(x[0]), eq(x[1] - 1)]
        non_zero = lambda x: [ne(x[0])]
    else:
        F = Facts()
        ins = [force(SymV(("in", "a%d" % i), S.types.T[params(S, r)[i]]["e"]), S.types) for i in (0, 1)]
        is_zero, non_zero = (lambda x: [req(x)]), (lambda x: [rne(x)])
    for tag, k, want, what in (("zero first", 0, LESS, "zero is less than every nonzero element"),
                               ("zero second", 1, GREATER, "every nonzero element is greater than zero"),
                               ("nonzero", None, None, "nonzero elements are comparable")):
        G = F.add_all([l for i in (0, 1) for l in (is_zero if i == k else non_zero)(ins[i])])
        for o in S.explore(fn, con, root=r, facts=G, tag="stab " + tag) or ():
            if o.kind != "ret":
                S.reach(fn, "never panics", o.facts, o.msg)
                continue
            v = force(o.val, S.types)
            if not isinstance(v, AdtV):
                S.undecided(fn, what, "result %r" % (v,))
                continue
            if v.variant == 0:
                S.reach(fn, what, o.facts, "not comparable")
                continue
            v = force(v.fields[0], S.types)
            if not isinstance(v, AdtV):
                S.undecided(fn, what, "result %r" % (v,))
            elif want is None or v.variant == want:
                S.proved(fn, what)
            else:
                S.reach(fn, what, o.facts, "compares as %s" % ("less", "equal", "greater")[v.variant])


def search(S):
    r = the(S, "Mat", None, "get_stable_column_index_under_row")
    if r is None:
        return
    fn = label(r)
    F, (a, c, r0) = mat_inputs(S, r)
    F = F.add_all([("ge", a.C - 1 - c), ("ge", a.R - 1 - r0)])

    def column(w):
        R, C, e = wmat(w, a)
        return [(i, e[i * C + wint(w, c)]) for i in range(wint(w, r0), R)]

    def wrank(w, v):
        return w.num(rank(P(v)))

    for o in mexplore(S, r, F) or ():
        if o.kind != "ret":
            S.reach(fn, "returns for positions of the matrix", o.facts, o.msg)
            continue
        v = force(o.val, S.types)
        k = P(var("k"))
        G = lits(o.facts, ("ge", k - r0), ("ge", a.R - 1 - k))
        if not isinstance(v, AdtV):
            S.undecided(fn, "result", repr(v)[:100])
            continue
        if v.variant == 0:
            what = "no pivot only if the searched part is zero"
            if G is None or zero_by_rank(G, a.at(k, c, G)):
                S.proved(fn, what)
            else:
                S.goal(fn, what, o.facts, False, pred=((a.R, a.C), lambda w: all(x == 0 for i, x in column(w))))
            continue
        t = force(v.fields[0], S.types)
        i, s = [force(x, S.types) for x in t.fields]
        S.goal(fn, "the row found is one of the searched rows", o.facts, AND(L(("ge", i - r0)), L(("ge", a.R - 1 - i))))
        S.goal(fn, "the pivot is the entry of that row", o.facts, L(req(s, a.at(i, c, o.facts))))
        S.goal(fn, "the pivot is not zero", o.facts, L(rne(s)))
        what = "no searched element is larger than the pivot"
        if G is None:
            S.proved(fn, what)
            continue
        S.goal(fn, what, G, L(("ge", rank(s) - rank(a.at(k, c, G)))))


def c08(S):
    for ty in ("f32", "f64", "Rational"):
        comparison(S, ty)
    search(S)


EPS = {"f32": "1.1920929e-7", "f64": "2.220446049250313e-16"}


def c09(S):
    num.c09(S)
    for ty, e in sorted(EPS.items()):
        r = the(S, ty, "EpsilonEquality", "epsilon_equals")
        if r is None:
            continue
        x, y = [force(SymV(("in", "a%d" % i), S.types.T[params(S, r)[i]]["e"]), S.types) for i in (0, 1)]
        e = P(Fraction(e))
        fn, what, c = label(r), "true exactly if the difference is below the machine epsilon", Fraction(EPS[ty])

        def near(w):
            b = w.rng.choice((0, 0, 1, -1, 3, -40, 1000000))
            assign(w, y, Fraction(b))
            assign(w, x, b + c * w.rng.choice((0, Fraction(1, 2), Fraction(99, 100), 1, 2, 50)) * w.rng.choice((1, -1)))

        def wrong(w):
            return o.kind == "ret" and bool(w.formula(o.val)) != (abs(w.num(x) - w.num(y)) < c)
        for o in S.explore(fn, root=r) or ():
            if not on_values(S, fn, what, o, near, wrong):
                num.truth(S, fn, what, o, AND(L(("rgt", e - x + y)), L(("rgt", e + x - y))))
    r = the(S, "Mat", "EpsilonEquality", "epsilon_equals")
    if r is not None:
        fn = label(r)
        F, (a, b) = mat_inputs(S, r)
        F = F.add_all([eq(a.R, b.R), eq(a.C, b.C)])
        bv = atom("q", ("eps", 0), "usize")

        def same(w):
            d = [u - v for u, v in zip(w.seq(a.seq), w.seq(b.seq))]
            return sum(u * u for u in d) == 0
        for o in mexplore(S, r, F) or ():
            if o.kind != "ret":
                S.reach(fn, "matrices of one shape can be compared", o.facts, o.msg)
                continue
            G = o.facts.add_all([("ge", P(bv)), ("ge", a.R * a.C - 1 - P(bv))]) or o.facts
            d = Sum(ZERO, a.R * a.C, bv, (pure_get(a.seq, P(bv), G, S.types) - pure_get(b.seq, P(bv), G, S.types)) ** 2)
            want = L(req(d, ZERO))
            v = o.val if isinstance(o.val, bool) or o.val[0] in ("lit", "and", "or", "all", "nd") else L(o.val)
            what = "the sum of squared differences is approximately zero"

            def prepared(w):
                R, C = w.rng.choice(((1, 1), (2, 2), (2, 3), (3, 2), (4, 4), (5, 3), (1, 9), (9, 1), (7, 7)))
                for p, n in ((a.R, R), (b.R, R), (a.C, C), (b.C, C)):
                    assign(w, p, n)
                d = w.rng.choice((None, w.rng.randrange(R * C), R * C - 1))
                for k in range(R * C):
                    u = w.num(pure_get(a.seq, P(k), o.facts, S.types))
                    assign(w, pure_get(b.seq, P(k), o.facts, S.types), u + w.rng.choice((1, -1, 3)) if k == d else u)
            if on_values(S, fn, what, o, prepared, lambda w: bool(w.formula(v)) != same(w)):
                continue
            S.goal(fn, what, o.facts, AND(OR(f_not(v), want), OR(v, f_not(want))),
                   pred=((a.R,), lambda w, v=v: bool(w.formula(v)) == same(w)))


CHECKS = {"C08": c08, "C09": c09}
