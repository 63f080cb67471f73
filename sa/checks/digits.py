"""L10: the digits of a number and the enumeration of all matrices over a list of values.

Both are iterators: a first state and a transition (the summary of `next`).  Digits: under an abstraction function
R(state), the number still to be written, the first state stands for n and a step yields R mod base and leaves
R div base, ending exactly at zero; so the history of calls is the positional expansion.  Matrices: a step at the
number k below values^(rows*cols) yields the matrix whose entries are selected by the digits of k and goes on to k+1,
and the expansion is a bijection between the numbers below b^N and the sequences of N digits below b."""
import random
from .common import *
from .linalg import M
from .pivot import assign
from ..models import Src
from ..witness import W, NoValue, Reject
from ..replay import hold

DIGITS = "the positional expansion, least significant digit first, without leading zeros"
FIRST = "the enumeration starts at the first matrix"
STEP = "one matrix for the digits of each number, in turn, then the end"
NEVER = "never panics"


def local_state(S, o):
    v = force(o.val, S.types) if o.kind == "ret" else None
    return v if isinstance(v, AdtV) and v.path in S.prog.adts else None


def stepper(S, v):
    """the Iterator::next of a state and its inputs"""
    rs = find(S, last(v.path), "Iterator", "next")
    if len(rs) != 1:
        return None
    r = rs[0]
    ty = S.types.T[params(S, r)[0]]["e"]
    st = force(SymV(("in", "a0"), ty), S.types)
    return r, ty, st


def step(S, r, ty, F, con, tag):
    return S.explore(r["path"], con, root=r, facts=F, args=[RefV(("A", "a0"))], store={("A", "a0"): SymV(("in", "a0"), ty)}, tag=tag,
                     setup=lambda ex: ex.roottype.update({("A", "a0"): ty}) if hasattr(ex, "roottype") else None)


def after(S, o):
    return force(o.store.get(("A", "a0")), S.types)


def option(S, o):
    v = force(o.val, S.types)
    if isinstance(v, AdtV) and last(v.path) == "Option":
        return (v.variant == 1), (force(v.fields[0], S.types) if v.variant == 1 else None)
    raise Undecided("result %r" % (v,))


def digits_of(n, b):
    out = []
    if n and b < 2:
        raise Reject()      # does not end
    while n:
        out.append(n % b)
        n //= b
    return out


# ------------------------------------------------------------------ digits
def number_digits(S):
    """True if the contract of num_to_seq is established"""
    r = the(S, None, None, "num_to_seq")
    if r is None:
        return False
    fn = label(r)
    n, b = (force(SymV(("in", "a%d" % i), t), S.types) for i, t in enumerate(params(S, r)))
    F = Facts().add(("ge", b - 1))
    outs = S.explore(fn, None, root=r, facts=F, tag="l10")
    states = [local_state(S, o) for o in outs or ()]
    if not states or any(s is None for s in states):
        S.undecided(fn, DIGITS, "the digits are not made by an iterator of the crate")
        return False
    nx = stepper(S, states[0])
    if nx is None:
        S.undecided(fn, DIGITS, "no next")
        return False
    r2, ty, st = nx
    nums = [i for i, x in enumerate(st.fields) if isinstance(force(x, S.types), Poly)]
    steps = step(S, r2, ty, Facts(), None, "l10") or ()
    for bi in nums:
        bs = force(st.fields[bi], S.types)
        for i in nums:
            if i == bi:
                continue
            for div in (False, True):
                R = (lambda v: quot(force(v.fields[i], S.types), force(v.fields[bi], S.types))) if div else (lambda v: force(v.fields[i], S.types))
                try:
                    if digit_proof(S, R, bi, outs, steps, F, n, b, bs, st):
                        S.proved(fn, DIGITS)
                        return True
                except Undecided:
                    pass
    # no abstraction function: histories of the transition
    for base in (2, 3, 4, 5, 7, 10, 16):
        for k in list(range(0, 40)) + [64, 99, 100, 101, 255, 256, 1000, 4096]:
            try:
                got = run_digits(S, outs, steps, n, b, st, k, base)
            except (NoValue, Reject, Undecided) as e:
                S.undecided(fn, DIGITS, "analysis: %s %s" % (type(e).__name__, e))
                return False
            if got != digits_of(k, base):
                S.violate(fn, DIGITS, "the digits of %d in base %d come out as %s" % (k, base, got), {"n": k, "base": base})
                return False
    S.undecided(fn, DIGITS, "no abstraction function found")
    return False


def digit_proof(S, R, bi, outs, steps, F, n, b, bs, st):
    for o in outs:
        v = local_state(S, o)
        if not (prove(o.facts, L(eq(R(v), n))) and prove(o.facts, L(eq(force(v.fields[bi], S.types), b)))):
            return False
    now = R(st)
    for o in steps:
        G = o.facts.add(("ge", bs - 1))
        if G is None:
            continue
        if o.kind != "ret":
            if not prove(G, False):
                return False
            continue
        some, d = option(S, o)
        if not some:
            if not prove(G, L(eq(now))):
                return False
            continue
        v = after(S, o)
        if not (prove(G, L(ne(now))) and prove(G, L(eq(d, rem(now, bs)))) and prove(G, L(eq(R(v), quot(now, bs)))) and prove(G, L(eq(force(v.fields[bi], S.types), bs)))):
            return False
    return True


def pick(S, w, outs):
    for o in outs:
        if hold(w, o.facts):
            return o
    raise NoValue("no outcome")


def run_digits(S, outs, steps, n, b, st, k, base):
    w = W(random.Random(0), S.types)
    w.strict = True
    assign(w, n, k)
    assign(w, b, base)
    o = pick(S, w, outs)
    if o.kind != "ret":
        return "a panic"
    state = [w.num(force(x, S.types)) for x in local_state(S, o).fields]
    out = []
    while len(out) < 40:
        w = W(random.Random(0), S.types)
        w.strict = True
        for x, y in zip(st.fields, state):
            assign(w, force(x, S.types), y)
        o = pick(S, w, steps)
        if o.kind != "ret":
            return "a panic"
        some, d = option(S, o)
        if not some:
            return out
        out.append(w.num(d))
        state = [w.num(force(x, S.types)) for x in after(S, o).fields]
    return out


# ------------------------------------------------------------------ matrices
def matrices(S, established):
    r = the(S, None, None, "mat_iterator")
    if r is None:
        return
    fn = label(r)
    ps = params(S, r)
    rows, cols = (force(SymV(("in", "a%d" % i), ps[i]), S.types) for i in (0, 1))
    args, store = [rows, cols, RefV(("A", "a2"))], {("A", "a2"): SymV(("in", "a2"), S.types.T[ps[2]]["e"])}
    F = Facts()
    outs = S.explore(fn, None, root=r, facts=F, args=args, store=store, tag="l10", setup=lambda ex: ex.roottype.update({("A", "a2"): S.types.T[ps[2]]["e"]}))
    states = [local_state(S, o) for o in outs or ()]
    nx = stepper(S, states[0]) if states and states[0] is not None else None
    if nx is None or len(states) != 1:
        S.undecided(fn, FIRST, "the matrices are not made by an iterator of the crate")
        return
    r2, ty, st = nx
    fs = [force(x, S.types) for x in states[0].fields]
    at = {}
    for i, x in enumerate(fs):
        if isinstance(x, RefV) and x.root == ("A", "a2") and not x.path:
            at["values"] = i
        elif isinstance(x, Poly):
            at.setdefault("rows" if x == rows else "cols" if x == cols else "num" if x == ZERO else "?", i)
    if set(at) != {"values", "rows", "cols", "num"} or len(fs) != 4:
        S.undecided(fn, FIRST, "state of the iterator: %s" % (sorted(at),))
        known = False
    else:
        S.proved(fn, FIRST)
        known = True
    # the inputs of next
    sf = [x if isinstance(x, RefV) else force(x, S.types) for x in st.fields]
    vi = next((i for i, x in enumerate(fs) if isinstance(x, RefV)), None)
    if vi is None:
        S.undecided(fn, STEP, "no list of values in the iterator")
        return
    sv = st.fields[vi]
    vals = force(SymV(("d", sv.key), S.types.T[sv.ty]["e"]), S.types)
    b = vals.n
    lists = []

    def con(ex, ctx, f, a):
        k, base = (force(x, S.types) for x in a)
        if not established or not prove(ctx.facts, L(("ge", base - 1))):
            raise Undecided("digits")
        key = ("digits", k, base)
        D = SymSeq(key, params(S, the(S, None, None, "num_to_seq"))[0], P(atom("len", (key,), "usize")))
        lists.append((D, k, base))
        v = atom("q", ("dg", 0), "usize")
        ctx.facts = ctx.facts.add_forall(((v, ZERO, D.n),), ((("ge", base - 1 - pure_get(D, P(v), ctx.facts, S.types)),),))
        if known:
            N = sf[at["rows"]] * sf[at["cols"]]
            if prove(ctx.facts, L(("ge", power(base, N) - 1 - k))):
                ctx.learn(("ge", N - D.n))
            elif prove(ctx.facts, L(eq(k))):
                ctx.learn(eq(D.n))
        return IterV(Src("val", (D,)))
    F = Facts().add(("ge", b - 1))
    seqs = [x for x in S.prog.roots if x["name"] == "num_to_seq"]
    if known:
        F = F.add(("ge", (1 << 32) - 1 - sf[at["rows"]] * sf[at["cols"]]))
    steps = step(S, r2, ty, F, {x["key"]: con for x in seqs}, "l10")
    if steps is None:
        return
    fn2 = r2["path"]
    bad = []
    for o in steps:
        try:
            why = mat_step(S, o, at, sf, vals, b, lists) if known else (STEP, "state of the iterator")
        except (Undecided, RecursionError) as e:
            why = STEP, "analysis: %s" % e
        if why is None:
            S.proved(fn2, STEP)
        else:
            bad.append(why)
    if bad:
        w = history(S, states[0], outs[0], st, vi, vals, rows, cols, steps, lists)
        if w is not None:
            S.violate(fn2, STEP, w[0], w[1])
        for what, why in bad if w is None else ():
            S.undecided(fn2, what, why)


def mat_step(S, o, at, sf, vals, b, lists):
    G = o.facts
    n, m, k = sf[at["rows"]], sf[at["cols"]], sf[at["num"]]
    N = n * m
    if o.kind != "ret":
        return None if prove(G, False) else (NEVER, "panic %s under %s" % (o.msg, repr(G)[:200]))
    below = prove(G, L(("ge", power(b, N) - 1 - k))) or prove(G, L(eq(N))) and prove(G, L(eq(k)))
    beyond = prove(G, L(("ge", k - power(b, N)))) or prove(G, L(eq(N))) and prove(G, L(("ge", k - 1)))
    some, x = option(S, o)
    if not some:
        return None if beyond else (STEP, "the end before the last matrix")
    if not below:
        return STEP, "a matrix after the last one"
    v = after(S, o)
    for name, i in at.items():
        y = v.fields[i]
        if name == "values":
            if force(y, S.types) != force(SymV(y.key, y.ty), S.types) if isinstance(y, SymV) else not isinstance(y, RefV):
                return STEP, "another list of values"
        elif not prove(G, L(eq(force(y, S.types), sf[i] + (1 if name == "num" else 0)))):
            return STEP, "the next state: %s" % name
    A = M(S, x)
    if not (prove(G, L(eq(A.R, n))) and prove(G, L(eq(A.C, m))) and prove(G, L(eq(A.seq.n, N)))):
        return STEP, "shape"
    i = P(var("di"))
    I = G.add_all([("ge", i), ("ge", N - 1 - i)])
    if I is None:
        return None
    for D, kk, base in [d for d in lists if d[1] == k and d[2] == b] or [(None, None, None)]:
        if D is None:
            return STEP, "no digits of the number"
        J = I.add(("ge", D.n - 1 - i))
        if J is not None:
            d = pure_get(D, i, J, S.types)
            J = J.add_all([("ge", d), ("ge", b - 1 - d)])
            if J is not None and not prove(J, L(req(pure_get(A.seq, i, J, S.types), pure_get(vals, d, J, S.types)))):
                return STEP, "the entry at a digit"
        J = I.add(("ge", i - D.n))
        if J is not None and not prove(J, L(req(pure_get(A.seq, i, J, S.types), pure_get(vals, ZERO, J, S.types)))):
            return STEP, "the entry beyond the digits"
        return None


SIZES = [(1, 1, 1), (2, 1, 1), (3, 1, 1), (2, 1, 2), (2, 2, 1), (3, 2, 1), (2, 2, 2), (3, 1, 3), (3, 2, 2), (1, 2, 2), (2, 0, 2), (2, 3, 0), (2, 2, 3), (4, 1, 2), (2, 1, 5), (5, 3, 1), (2, 2, 4), (10, 1, 2), (2, 9, 1), (3, 2, 3), (20, 1, 2), (2, 13, 1)]


def history(S, first, o0, st, vi, vals, rows, cols, steps, lists):
    """an enumeration, by iterating the transition, that is not of all matrices once each"""
    for b, n, m in SIZES:
        try:
            got = run_mats(S, first, o0, st, vi, vals, rows, cols, steps, lists, b, n, m)
        except (NoValue, Reject, Undecided, ZeroDivisionError):
            continue
        want = b ** (n * m)
        if isinstance(got, str):
            return "enumerating %dx%d matrices over %d values: %s" % (n, m, b, got), {"rows": n, "cols": m, "values": b}
        if len(got) != want or len(set(got)) != want or any(x[:2] != (n, m) or len(x[2]) != n * m for x in got):
            return "%d matrices (%d different) of %d when enumerating %dx%d matrices over %d values" % (len(got), len(set(got)), want, n, m, b), {"rows": n, "cols": m, "values": b}
    return None


def run_mats(S, first, o0, st, vi, vals, rows, cols, steps, lists, b, n, m):
    w = W(random.Random(0), S.types)
    w.strict = True
    assign(w, rows, n)
    assign(w, cols, m)
    if not hold(w, o0.facts):
        raise NoValue("first state")
    state = [None if i == vi else w.num(force(x, S.types)) for i, x in enumerate(first.fields)]
    out, seen = [], {}
    while len(out) <= b ** (n * m):
        w = W(random.Random(0), S.types)
        w.strict = True
        w.state = {vals.key: [7 + 2 * i for i in range(b)]}
        assign(w, vals.n, b)
        for i in range(b):
            assign(w, pure_get(vals, P(i), Facts(), S.types), 7 + 2 * i)
        for i, (x, y) in enumerate(zip(st.fields, state)):
            if i != vi:
                assign(w, force(x, S.types), y)
        for D, k, base in lists:
            d = digits_of(int(w.num(k)), int(w.num(base)))
            w.state[D.key] = d
            assign(w, D.n, len(d))
            for i, x in enumerate(d):
                try:
                    assign(w, pure_get(D, P(i), Facts(), S.types), x)
                except (Undecided, NoValue, Reject):
                    pass
        o = pick(S, w, steps)
        if o.kind != "ret":
            return "a panic after %d matrices" % len(out)
        some, x = option(S, o)
        if not some:
            return out
        A = M(S, x)
        x = int(w.num(A.R)), int(w.num(A.C)), tuple(w.seq(A.seq))
        if x in seen:
            return "matrix %d is the one made before as %d" % (len(out), seen[x])
        seen[x] = len(out)
        out.append(x)
        state = [None if i == vi else w.num(force(y, S.types)) for i, y in enumerate(after(S, o).fields)]
    return out


def l10(S):
    matrices(S, number_digits(S))


CHECKS = {"L10": l10}
