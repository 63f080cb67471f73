"""P05: evaluation of terms and polynomials."""
from .common import *
from .mdeg import md_inputs, term_of
from .pivot import assign, on_values

VALUE = "the value is the sum of coefficient times product of coordinate powers"
PANIC = "a panic only if the point has too few coordinates"
SHORT = "a point with too few coordinates is rejected"


def powers(x, out=None):
    """the power atoms in a term"""
    out = [] if out is None else out
    if isinstance(x, Poly):
        for m, _ in x.t:
            for a, _ in m:
                powers(a, out)
    elif isinstance(x, Atom):
        if x.kind == "pow":
            out.append(P(x))
        for y in x.args:
            powers(y, out)
    elif isinstance(x, tuple):
        for y in x:
            powers(y, out)
    return out


def ranged(F, v, lo, hi):
    return F.add_all([("ge", P(v) - lo), ("ge", hi - 1 - P(v))])


def plain(F, x, depth=0):
    """x with every product of powers written without case distinctions, where these make no difference under F"""
    x = P(x)
    out = ZERO
    for m, c in x.t:
        t = P(c)
        for a, e in m:
            if a.kind in ("sum", "prod") and depth < 4:
                lo, hi, bv, body = a.args
                v = atom("q", ("ev", depth), "usize")
                b = subst(P(body), {bv: P(v)})
                G = ranged(F, v, P(lo), P(hi))
                if G is None:
                    b = b
                elif a.kind == "sum":
                    b = plain(G, b, depth + 1)
                else:
                    for p in powers(b):
                        if b != p and prove(G, L(req(b, p))):
                            b = p
                            break
                y = (Sum if a.kind == "sum" else Prod)(lo, hi, v, b)
            else:
                y = P(a)
            for _ in range(int(e)):
                t = t * y
        out = out + t
    return out


def spec(c, e, x, F, types):
    v = atom("q", ("ev", 7), "usize")
    return c * Prod(ZERO, e.n, v, power(pure_get(x, P(v), F, types), pure_get(e, P(v), F, types)))


def wspec(w, terms, x):
    x, r = w.seq(x), 0
    for c, es in terms:
        for k, d in enumerate(es):
            if d:
                c = c * x[k] ** int(d)
        r = r + c
    return r


def point(S, w, es, n, x, over=0):
    """n variables, all used by one of the terms, now and then with large exponents; `over` coordinates are missing"""
    assign(w, x.n, n - over if over else n + w.rng.choice((0, 0, 1)))
    last_one = w.rng.choice((len(es) - 1, w.rng.randrange(len(es))))
    big = w.rng.choice((4, 4, 255))
    for k, e in enumerate(es):
        m = n if k == last_one else w.rng.randrange(n + 1)
        assign(w, e.n, m)
        for i in range(m):
            assign(w, pure_get(e, P(i), Facts(), S.types), w.rng.choice((1, 2, big)) if i == m - 1 else w.rng.choice((0, 1, 2, big)))
    for i in range(n):
        assign(w, pure_get(x, P(i), Facts(), S.types), w.rng.choice((-1, 2, 3)) if i else 2)


def term_eval(S):
    r = the(S, "Term", None, "eval")
    if r is None:
        return
    F, (t, x) = md_inputs(S, r, nonzero=False)
    c, e = t
    terms = lambda w: [(w.num(c), [w.num(v) if isinstance(v, Poly) else v for v in w.seq(e)])]
    obligations(S, r, F, x, spec(c, e, x, F, S.types), terms, lambda F: F.add(("ge", x.n - e.n)), lambda F: F.add(("ge", e.n - 1 - x.n)), e.n,
                lambda w, over=0: point(S, w, [e], w.rng.choice((1, 2, 4, 12)), x, over))


def poly_eval(S):
    r = the(S, "Polynomial", None, "eval")
    if r is None:
        return
    fn = label(r)
    ps = params(S, r)
    ty = S.types.T[ps[0]]
    v = force(SymV(("in", "a0"), ty["e"] if ty["k"] == "ref" else ps[0]), S.types)
    ts = force(v.fields[0], S.types)
    x = force(SymV(("in", "a1"), S.types.T[ps[1]]["e"]), S.types)
    F = Facts()
    k = atom("q", ("tk", 0), "usize")
    c, e = term_of(S, pure_get(ts, P(k), F, S.types))
    j = atom("q", ("tj", 0), "usize")
    F = F.add_forall([(k, ZERO, ts.n), (j, e.n - 1, e.n)], [[ne(pure_get(e, P(j), F, S.types))]])
    want = Sum(ZERO, ts.n, k, spec(c, e, x, F, S.types))

    def terms(w):
        out = []
        for i in range(wint(w, ts.n)):
            ci, ei = term_of(S, pure_get(ts, P(i), F, S.types))
            out.append((w.num(ci), w.seq(ei)))
        return out

    def prepare(w, over=0):
        n = w.rng.choice((1, 2, 4, 40))
        assign(w, ts.n, n)
        point(S, w, [term_of(S, pure_get(ts, P(i), F, S.types))[1] for i in range(n)], w.rng.choice((1, 2, 4)), x, over)
    m = var("t")
    em = term_of(S, pure_get(ts, P(m), F, S.types))[1]
    obligations(S, r, F, x, want, terms,
                lambda F: F.add_forall([(k, ZERO, ts.n)], [[("ge", x.n - e.n)]]),
                lambda F: F.add_all([("ge", P(m)), ("ge", ts.n - 1 - P(m)), ("ge", em.n - 1 - x.n)]), ts.n, prepare)


def wint(w, p):
    return int(w.num(p))


def obligations(S, r, F, x, want, terms, long, short, size, prepare):
    fn = label(r)
    fits = lambda w: all(len(es) <= len(w.seq(x)) for c, es in terms(w))
    for o in S.explore(fn, root=r, facts=F) or ():
        if o.kind != "ret":
            G = long(o.facts)
            if G is None or contradictory(G):
                S.proved(fn, PANIC)
            elif not on_values(S, fn, PANIC, o, prepare, fits, tries=30):
                S.goal(fn, PANIC, o.facts, False, note=" (%s)" % o.msg, pred=((size,), lambda w: not fits(w)))
            continue
        G = short(o.facts)
        if G is None or contradictory(G):
            S.proved(fn, SHORT)
        elif not on_values(S, fn, SHORT, o, lambda w: prepare(w, 1), lambda w: not fits(w), tries=60):
            S.goal(fn, SHORT, o.facts, False, pred=((size,), fits))
        v = force(o.val, S.types)
        if not isinstance(v, Poly):
            S.undecided(fn, VALUE, "result %r" % (v,))
            continue
        G = long(o.facts)
        if G is None:
            continue
        ok = False
        try:
            ok = plain(G, v - want) == ZERO or prove(G, L(req(plain(G, v), want)))
        except (Undecided, RecursionError):
            pass
        if ok:
            S.proved(fn, VALUE)
        elif not on_values(S, fn, VALUE, o, prepare, lambda w: fits(w) and w.num(v) != wspec(w, terms(w), x), tries=60):
            S.goal(fn, VALUE, o.facts, L(req(v, want)), pred=((v, want), lambda w: not fits(w) or w.num(v) == wspec(w, terms(w), x)))


def p05(S):
    term_eval(S)
    poly_eval(S)


CHECKS = {"P05": p05}
