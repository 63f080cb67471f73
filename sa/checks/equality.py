"""E01: equality and copies of the value types.

Two values of a type are compared component by component (numbers, sequences of numbers); `eq` has to be true exactly
when every component agrees and a copy has to agree with the original in every component."""
from .common import *
from .linalg import M
from .mdeg import trimmed
from . import num
from .pivot import assign, on_values

SAME = "true only if every component is equal"
DIFF = "false only if some component differs"
COPY = "the copy equals the original"
NEVER = "never panics"
TYPES = ("Integer", "Rational", "MultiDegree", "Term", "Mat")


def components(S, v):
    v = force(v, S.types)
    if isinstance(v, (Poly, Seq)):
        return [v]
    if isinstance(v, AdtV):
        return [c for x in v.fields for c in components(S, x)]
    raise Undecided("component %r" % (v,))


def inputs(S, r, ty):
    F, ins = Facts(), []
    con = None
    for i, p in enumerate(params(S, r)):
        t = S.types.T[p]
        v = force(SymV(("in", "a%d" % i), t["e"] if t["k"] == "ref" else p), S.types)
        ins.append(v)
        if ty in ("MultiDegree", "Term"):
            F = trimmed(F, components(S, v)[-1], S.types)
        if ty == "Mat":
            A = M(S, v)
            F = F.add(eq(A.seq.n, A.R * A.C))
    if ty == "Rational":
        F, _ = num.rat_inputs(S, r)
        con = num.gcd_contract(S)
    return F, ins, con


def position(F, s):
    i = P(var("i"))
    return i, F.add_all([("ge", i), ("ge", s.n - 1 - i)]) if F is not None else None


def equal_at(S, G, x, y, unless=False):
    """x and y agree, or the formula `unless` holds"""
    if isinstance(x, Poly):
        return prove(G, OR(unless, L(req(x, y)))) or prove(G, OR(unless, L(eq(x, y))))
    if x == y:
        return True
    for a, b in ((x, y), (y, x)):
        if prove(G, OR(unless, L(("b", ("seqeq", a, b), True)))):
            return True
    if not prove(G, OR(unless, L(eq(x.n, y.n)))):
        return False
    i, H = position(G, x)
    return H is None or equal_at(S, H, pure_get(x, i, H, S.types), pure_get(y, i, H, S.types), unless)


def assume_equal(S, G, xs, ys):
    k = atom("q", ("eq", 0), "usize")
    for x, y in zip(xs, ys):
        if G is None:
            return None
        if isinstance(x, Poly):
            G = G.add_all([req(x, y), eq(x, y)])
        else:
            G = G.add_all([eq(x.n, y.n), ("b", ("seqeq", x, y), True), ("b", ("seqeq", y, x), True)])
            if G is not None:
                a, b = (pure_get(z, P(k), G, S.types) for z in (x, y))
                G = G.add_forall([(k, ZERO, x.n)], [[req(a, b), eq(a, b)]])
    return G


def wcomp(w, x):
    return w.num(x) if isinstance(x, Poly) else [w.num(v) if isinstance(v, Poly) else v for v in w.seq(x)]


def fill(S, w, x, v):
    if isinstance(x, Poly):
        assign(w, x, v)
        return
    assign(w, x.n, len(v))
    for i, e in enumerate(v):
        assign(w, pure_get(x, P(i), Facts(), S.types), e)


def sample(rng, ty):
    few = (0, 1, 1, 2, 3, 5, 8, 13)
    if ty == "Integer":
        return [rng.choice((0, 1, -1, 5, -5, 255, 256, 1 << 32, -(1 << 32)))]
    if ty == "Rational":
        return list(rng.choice(((0, 1), (1, 1), (-1, 1), (1, 2), (-1, 2), (2, 1), (3, 2), (2, 3), (256, 1), (1, 256), ((1 << 32) + 1, 2), (7, 1 << 32))))
    md = [rng.choice((0, 1, 2, 200)) for _ in range(rng.choice(few))]
    if md:
        md[-1] = rng.choice((1, 3, 255))
    if ty == "MultiDegree":
        return [md]
    if ty == "Term":
        return [rng.choice((0, 1, -1, 2)), md]
    r, c = rng.choice(((0, 0), (0, 2), (1, 1), (1, 3), (2, 2), (2, 3), (3, 4), (5, 5)))
    return [[rng.choice((0, 1, 2, -1)) for _ in range(r * c)], r, c]


def vary(rng, ty, a):
    """another value, close to a or equal to it"""
    b = [list(x) if isinstance(x, list) else x for x in a]
    kind = rng.randrange(5)
    if kind == 0:
        return b
    if ty in ("Integer", "Rational"):
        if kind == 1:
            b[0] = -b[0]
            return b
        if kind == 2:
            b[0] += rng.choice((1, -1, 2, 256, 1 << 16, 1 << 32))
            return b
        if kind == 3 and ty == "Rational":
            b[1] += rng.choice((1, 2, 5, 256, 1 << 16, 1 << 32))
            return b
        return sample(rng, ty)
    if kind == 1:
        return sample(rng, ty)
    if ty == "Mat":
        if kind == 2:
            b[1], b[2] = b[2], b[1]
            return b
        if kind == 3:
            b[1], b[2] = rng.choice(((b[1] * b[2], 1), (1, b[1] * b[2])))
            return b
        s = b[0]
    elif ty == "Term" and kind == 2:
        b[0] += rng.choice((1, -1))
        return b
    else:
        s = b[-1]
        if kind == 3:
            s.extend([rng.choice((0, 1)) for _ in range(rng.randrange(3))] + [rng.choice((1, 2))])
            return b
    if s:
        k = rng.choice((0, len(s) - 1, rng.randrange(len(s))))
        s[k] += rng.choice((1, 2, 128))
        if ty != "Mat":
            s[k] %= 256
            s[-1] = s[-1] or 1
    return b


def prepare(S, ty, ins):
    xs = [components(S, v) for v in ins]
    order = [None] * len(xs[0])

    def put(w, comps, v):
        # the components in the order of the sample: by kind for matrices
        if ty == "Mat":
            A = M(S, ins[xs.index(comps)])
            for x, y in zip((A.seq, A.R, A.C), v):
                fill(S, w, x, y)
        else:
            for x, y in zip(comps, v):
                fill(S, w, x, y)

    def go(w):
        a = sample(w.rng, ty)
        put(w, xs[0], a)
        if len(xs) > 1:
            put(w, xs[1], vary(w.rng, ty, a))
    return go


def equality(S, ty, r, neg):
    fn = label(r)
    F, ins, con = inputs(S, r, ty)
    xs, ys = (components(S, v) for v in ins)
    pre = prepare(S, ty, ins)
    for o in S.explore(fn, con, root=r, facts=F, tag="e01") or ():
        if o.kind != "ret":
            S.reach(fn, NEVER, o.facts, o.msg)
            continue
        v = f_not(o.val) if neg else o.val
        G = o.facts

        def bad(w, v=v):
            return bool(w.formula(v)) != all(wcomp(w, x) == wcomp(w, y) for x, y in zip(xs, ys))
        for what, ok in ((SAME, lambda: prove(G, f_not(v)) or all(equal_at(S, G, x, y, f_not(v)) for x, y in zip(xs, ys))),
                         (DIFF, lambda: proves(assume_equal(S, G, xs, ys), v))):
            try:
                done = ok()
            except (Undecided, RecursionError):
                done = False
            if done:
                S.proved(fn, what)
            elif not on_values(S, fn, what, o, pre, bad, 1500):
                S.undecided(fn, what, "not shown under %s" % repr(G)[:300])


def proves(G, v):
    return G is None or prove(G, v)


def copy(S, ty, r):
    fn = label(r)
    F, ins, con = inputs(S, r, ty)
    xs = components(S, ins[0])
    pre = prepare(S, ty, ins)
    for o in S.explore(fn, con, root=r, facts=F, tag="e01") or ():
        if o.kind != "ret":
            S.reach(fn, NEVER, o.facts, o.msg)
            continue
        try:
            ys = components(S, o.val)
            done = len(xs) == len(ys) and all(equal_at(S, o.facts, x, y) for x, y in zip(xs, ys))
        except (Undecided, RecursionError) as e:
            S.undecided(fn, COPY, str(e))
            continue
        if done:
            S.proved(fn, COPY)
        elif not on_values(S, fn, COPY, o, pre, lambda w: [wcomp(w, x) for x in xs] != [wcomp(w, y) for y in ys], 600):
            S.undecided(fn, COPY, "not shown under %s" % repr(o.facts)[:300])


def e01(S):
    for ty in TYPES:
        rs = find(S, ty, "PartialEq", "eq")
        if not rs:
            the(S, ty, "PartialEq", "eq")
        for r in rs:
            if len(params(S, r)) == 2 and len(set(params(S, r))) == 1:
                equality(S, ty, r, False)
        for r in find(S, ty, "PartialEq", "ne"):
            equality(S, ty, r, True)
        rs = find(S, ty, "Clone", "clone")
        if not rs:
            the(S, ty, "Clone", "clone")
        for r in rs:
            copy(S, ty, r)


CHECKS = {"E01": e01}
