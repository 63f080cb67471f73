"""P14: constructors of terms and polynomials make what they name."""
from .common import *
from . import poly
from .mdeg import md_inputs, md_seq, term_of, exponents, single, no_trailing_zero, trimmed, strip
from .pivot import assign, on_values

COEF = "has the coefficient given"
EXPS = "has the exponents given"
ONE_TERM = "exactly one term"
ZERO_TEST = "accepts exactly the terms with coefficient zero"
TRIM = "no trailing zero exponent"
SAME = "the terms given, in their order"
NONZERO = "the nonzero terms given, no others"
NEVER = "never panics"


def coefficient(S, fn, F, got, want):
    S.goal(fn, COEF, F, L(req(got, want)))


def term(S, fn, F, v, c, m):
    """the value v is the term with coefficient c and exponents m: None, a sequence or (idx, deg)"""
    c1, m1 = term_of(S, v)
    coefficient(S, fn, F, c1, c)
    if isinstance(m, tuple):
        single(S, fn, F, m1, *m)
    elif m is None:
        exponents(S, fn, EXPS, F, m1, [], lambda i, v: ZERO, lambda w: [])
    else:
        exponents(S, fn, EXPS, F, m1, [m], lambda i, v: v[0], lambda w, x: x)
    if m1 != m:
        no_trailing_zero(S, fn, TRIM, F, m1)


def specs(S, n, ins, F):
    """facts and term wanted, by cases"""
    if n in ("zero", "default"):
        return [(F, ZERO, None)]
    if n == "one":
        return [(F, ONE, None)]
    if n in ("constant_unchecked", "from"):
        return [(F, ins[0], None)]
    if n == "monic":
        return [(F, ONE, ins[0])]
    if n == "new_unchecked":
        return [(F, ins[0], ins[1])]
    if n == "new":
        return [(F.add(("req", ins[0])), ZERO, None), (F.add(("rne", ins[0])), ins[0], ins[1])]
    if n == "term_unchecked":
        return [(F, ins[0][0], ins[0][1])]
    if n == "var":
        return [(F, ONE, (ins[0], ins[1]))]
    raise Undecided(n)


def the_term(S, fn, F, v):
    """the term of a term or of a polynomial with one term"""
    v = force(v, S.types)
    if isinstance(v, AdtV) and last(v.path) == "Polynomial":
        s = poly.pol_seq(S, v)
        if not S.goal(fn, ONE_TERM, F, L(eq(s.n, 1))):
            return None
        return pure_get(s, ZERO, F, S.types)
    return v


def maker(S, ty, tr, n):
    r = the(S, ty, tr, n)
    if r is None:
        return
    fn = label(r)
    F, ins = md_inputs(S, r, nonzero=False)
    for o in S.explore(fn, root=r, facts=F, tag="p14") or ():
        if o.kind != "ret":
            S.reach(fn, NEVER, o.facts, o.msg)
            continue
        try:
            for G, c, m in specs(S, n, ins, o.facts):
                if G is None:
                    continue
                t = the_term(S, fn, G, o.val)
                if t is not None:
                    term(S, fn, G, t, c, m)
        except Undecided as e:
            S.undecided(fn, COEF, str(e))


def zero_test(S):
    r = the(S, "Term", None, "is_zero")
    if r is None:
        return
    fn = label(r)
    F, ins = md_inputs(S, r, nonzero=False)
    for o in S.explore(fn, root=r, facts=F, tag="p14") or ():
        if o.kind != "ret":
            S.reach(fn, NEVER, o.facts, o.msg)
            continue
        z = L(req(ins[0][0]))
        S.goal(fn, ZERO_TEST, o.facts, AND(OR(f_not(o.val), z), OR(o.val, f_not(z))))


def filtered(S, F, s, t):
    """t is s without elements that have coefficient zero"""
    if not isinstance(t, FiltSeq) or not prove(F, L(eq(t.m, s.n))):
        return False
    i = P(var("i"))
    G = F.add_all([("ge", i), ("ge", s.n - 1 - i)])
    if G is None:
        return True
    at = Subst({t.bv: i})
    here = poly.tm(S.types, pure_get(s, i, G, S.types))
    for l, v in t.cases:
        H = G.add_all([norm_lit(at.any(x)) for x in l])
        if H is not None and not all(prove(H, L(req(a, b))) for a, b in zip(here, poly.tm(S.types, at.any(v)))):
            return False
    for l in t.drop:
        H = G.add_all([norm_lit(at.any(x)) for x in l])
        if H is not None and not prove(H, L(req(here[0]))):
            return False
    return True


def lists(S):
    with poly.Mode(S) as M:
        for n in ("new", "new_unchecked"):
            r = the(S, "Polynomial", None, n)
            if r is None:
                continue
            fn = label(r)
            F, ins = poly.inputs_of(S, r)
            s = force(ins[0], S.types)
            for o in poly.outcomes(S, M, r, F) or ():
                if o.kind != "ret":
                    S.reach(fn, NEVER, o.facts, o.msg)
                    continue
                try:
                    t = poly.pol_seq(S, o.val)
                    wt = lambda w, x: poly.wterms(w, S.types, x)
                    if n == "new_unchecked":
                        i = P(var("i"))
                        G = o.facts.add_all([("ge", i), ("ge", s.n - 1 - i)])
                        ok = s == t or prove(o.facts, L(eq(s.n, t.n))) and (G is None or all(
                            prove(G, L(req(a, b))) for a, b in zip(poly.tm(S.types, pure_get(s, i, G, S.types)), poly.tm(S.types, pure_get(t, i, G, S.types)))))
                        S.goal(fn, SAME, o.facts, bool(ok), pred=((s, t), lambda w: wt(w, s) == wt(w, t)))
                    else:
                        if filtered(S, o.facts, s, t):
                            S.proved(fn, NONZERO)
                        else:
                            poly.same(S, fn, NONZERO, o.facts, poly.D(S, o.val, o.facts), poly.den(S.types, s, o.facts), (o.val, s),
                                      lambda w: wt(w, t) == [x for x in wt(w, s) if x[0] != 0])
                        S.goal(fn, "no term has coefficient zero", o.facts, poly.every(S.types, t, o.facts, lambda c, m, i: L(("rne", c))),
                               pred=((t,), lambda w: all(c != 0 for c, _ in wt(w, t))))
                except Undecided as e:
                    S.undecided(fn, NONZERO, str(e))


def p14(S):
    for tr, n in ((None, "new"), (None, "new_unchecked"), (None, "constant_unchecked"), (None, "zero"), (None, "one"), (None, "monic"), (None, "var"), ("Default", "default"), ("From", "from")):
        maker(S, "Term", tr, n)
    zero_test(S)
    for n in ("term_unchecked", "constant_unchecked", "var"):
        maker(S, "Polynomial", None, n)
    lists(S)


CHECKS = {"P14": p14}
