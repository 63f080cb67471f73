"""L09: rank, nullity, kernel and range, read off the echelon form."""
from .common import *
from .elim import heads, lits, holds, need, Attempt, refuted, form_inputs, put_form, put_num
from .linalg import M, mat_inputs, wmat

RANK = "the number of nonzero rows"
ZEROS = "the number of zero rows"
NULL = "the number of columns without a pivot"
KERNEL = "one vector per column without pivot: one there, minus the reduced form at the pivots, zero elsewhere"
RANGE = "the columns of the original matrix at the pivots, in order"
NEVER = "never panics on a form of a matrix"


def zero_row(b, r, G):
    j = atom("q", ("zr", 0), "usize")
    return [(j, ZERO, b.C)], [[req(b.at(P(r), P(j), G))]]


def indicator(F, b, x):
    """x with every sum that counts the zero rows of b replaced by the number of them"""
    z = P(atom("q", ("zero rows", 0), "usize"))
    out = ZERO
    for m, c in P(x).t:
        t = P(c)
        for a, e in m:
            y = P(a)
            if a.kind == "sum" and P(a.args[0]) == ZERO and P(a.args[1]) == b.R and counts(F, b, a):
                y = z
            for _ in range(int(e)):
                t = t * y
        out = out + t
    return out, z


def counts(F, b, a):
    """is the sum the number of zero rows?"""
    k, j = var("r"), var("j")
    body = subst(P(a.args[3]), {a.args[2]: P(k)})
    G = lits(F, ("ge", P(k)), ("ge", b.R - 1 - P(k)))
    if G is None:
        return True
    some = lits(G, ("ge", P(j)), ("ge", b.C - 1 - P(j)), rne(b.at(P(k), P(j), G)))
    none = G.add_forall(*zero_row(b, k, G))
    return holds(some, eq(body)) and holds(none, eq(body - 1))


def wpivots(t):
    """pivot columns of a matrix, row by row (None for a zero row)"""
    R, C, e = t
    return [next((c for c in range(C) if e[r * C + c] != 0), None) for r in range(R)]


def any_mat(w, b):
    n, m = w.rng.choice((1, 2, 3, 4, 7)), w.rng.choice((1, 2, 3, 4, 9))
    put_num(w, b.R, n)
    put_num(w, b.C, m)
    e = [[0] * m if w.rng.random() < .4 else [w.rng.choice((0, 0, 0, 1, -1, 2)) for _ in range(m)] for _ in range(n)]
    if w.rng.random() < .3:
        e[w.rng.randrange(n)] = [0] * (m - 1) + [1]
    if w.rng.random() < .2:
        for r in e[w.rng.randrange(n):]:
            r[:] = [0] * m
    w.state[b.seq.key] = [x for r in e for x in r]


def counting(S, name, what, value, spec):
    """functions that count: zero_rows, rank, nullity"""
    r = next((x for x in S.prog.roots if x["name"] == name), None)
    if r is None:
        S.violate(name, "anchor", "the public function this property is stated for is not in the crate any more")
        return
    fn = label(r)
    if name == "zero_rows":
        F, (b,) = mat_inputs(S, r)
        prepare = lambda w: any_mat(w, b)
    else:
        F, p, b, orig = form_inputs(S, r)
        prepare = lambda w: put_form(w, p, b, orig, w.rng.random() < .5)
    args, store, types = S.inargs
    outs, hs = heads(S, r, args, store, types, F)
    if outs is None or S.peel is not None:
        return
    want = lambda w: spec(wmat(w, b))
    bad = lambda w, o: o.kind != "ret" or w.num(o.val) != want(w)
    why = {}
    for o in outs:
        try:
            # what is known of the number of zero rows: it is at most the number of rows, and in an echelon form
            # the pivots of the others are in different columns
            G = counted(o.facts, b)
            z = P(atom("q", ("zero rows", 0), "usize"))
            G = lits(G, ("ge", z), ("ge", b.R - z), ("ge", b.R), ("ge", b.C), *([("ge", b.C - b.R + z)] if name != "zero_rows" else []))
            if o.kind != "ret":
                need(G is None or contradictory(G), o.msg)
                S.proved(fn, NEVER)
                continue
            v, _ = indicator(o.facts, b, o.val)
            need(G is None or holds(G, eq(v - value(b, z))), "the value")
            S.proved(fn, what)
        except Attempt as e:
            why[NEVER if o.kind != "ret" else what] = str(e)
        except (Undecided, RecursionError) as e:
            why[NEVER if o.kind != "ret" else what] = "analysis: %s" % e
    for k, e in sorted(why.items()):
        refuted(S, fn, k, e, F, outs, bad, prepare)


def counted(F, b):
    """the facts with sums that count the zero rows of b replaced"""
    H = Facts().add_all([])
    ls = []
    for l in F.lits:
        if l[0] in ("ge", "eq", "ne"):
            ls.append((l[0], indicator(F, b, l[1])[0]))
    return F.add_all(ls)


def is_pivot(b, r, c, G):
    """literal and range fact: c is the first column in which row r is not zero"""
    j = atom("q", ("pv", 0), "usize")
    return rne(b.at(r, c, G)), ([(j, ZERO, c)], [[req(b.at(r, P(j), G))]])


def kernel(S):
    r = next((x for x in S.prog.roots if x["name"] == "compute_kernel"), None)
    if r is None:
        S.violate("compute_kernel", "anchor", "the public function this property is stated for is not in the crate any more")
        return
    fn = label(r)
    F, p, b, orig = form_inputs(S, r)
    args, store, types = S.inargs
    outs, hs = heads(S, r, args, store, types, F)
    if outs is None or S.peel is not None:
        return

    def bad(w, o):
        if o.kind != "ret":
            return True
        R, C, e = wmat(w, b)
        pv = wpivots((R, C, e))
        want = []
        for c in range(C):
            if c not in pv:
                v = [0] * C
                v[c] = 1
                for i, q in enumerate(pv):
                    if q is not None:
                        v[q] = -e[i * C + c]
                want.append((C, 1, v))
        return vectors(S, w, o.val) != want
    why = {}
    for o in outs:
        try:
            if o.kind != "ret":
                need(contradictory(o.facts), o.msg)
                S.proved(fn, NEVER)
                continue
            kernel_form(S, o, b)
            S.proved(fn, KERNEL)
        except Attempt as e:
            why[NEVER if o.kind != "ret" else KERNEL] = str(e)
        except (Undecided, RecursionError) as e:
            why[NEVER if o.kind != "ret" else KERNEL] = "analysis: %s" % e
    for k, e in sorted(why.items()):
        refuted(S, fn, k, e, F, outs, bad, lambda w: put_form(w, p, b, orig, True))


def vectors(S, w, v):
    out = []
    for x in w.seq(v):
        if not (isinstance(x, tuple) and len(x) >= 3):
            raise Undecided("not a matrix: %r" % (x,))
        e, R, C = x[-3:]
        out.append((int(R), int(C), list(e)))
    return out


def pivot_cases(G, cases, b, r, c):
    """the cases (sets of literals) hold exactly if the pivot of row r is in column c"""
    for ls in cases:
        H = lits(G, *ls)
        if H is None or contradictory(H):
            continue
        j = P(var("pj"))
        need(holds(H, rne(b.at(r, c, H))), "a column taken for a pivot column is one")
        K = lits(H, ("ge", j), ("ge", c - 1 - j))
        need(K is None or holds(K, req(b.at(r, j, K))), "nothing before the pivot")
    l, fa = is_pivot(b, r, c, G)
    H = lits(G, l)
    H = H and H.add_forall(*fa)
    need(by_instances(H, [(r,), (r, c)], lambda K: any(all(follows(K, l) for l in ls) for ls in cases)), "a pivot is found")


def by_instances(F, points, k):
    """k under every case of the instances of the universal facts of F at the points"""
    if F is None or contradictory(F):
        return True
    inst = []
    for rs, cases in F.foralls:
        for p in points:
            if len(p) == len(rs):
                s = Subst({v: x for (v, _, _), x in zip(rs, p)})
                if all(holds(F, ("ge", x - P(s.any(lo))), ("ge", P(s.any(hi)) - 1 - x)) for (_, lo, hi), x in zip(rs, p)):
                    inst.append([[norm_lit(s.any(l)) for l in c] for c in cases])

    def go(G, n):
        if G is None:
            return True
        if n == len(inst):
            return contradictory(G) or k(G)
        return all(go(G.add_all(c), n + 1) for c in inst[n])
    return go(F, 0)


def follows(G, l):
    """as holds; equalities by excluding less and greater"""
    if holds(G, l):
        return True
    if l[0] != "eq":
        return False
    return all(H is None or contradictory(H) or holds(H, ("ge", P(-1))) for H in (lits(G, ("ge", l[1] - 1)), lits(G, ("ge", -l[1] - 1))))


def without_tests(F):
    """F without the facts about tests that are not comparisons (they only distract here)"""
    return Facts(F.lits, tuple(f for f in F.foralls if not any(l[0] == "b" for c in f[1] for l in c)))


def kernel_form(S, o, b):
    v, F = o.val, o.facts
    F = without_tests(F)
    need(isinstance(v, FiltSeq) and v.m == b.C and len(v.cases) == 1, "the shape of the result: one vector for some of the columns")
    ls, e = v.cases[0]
    c = P(var("c"))
    sb = Subst({v.bv: c})
    ls, e = [norm_lit(sb.any(l)) if l[0] != "b" else sb.any(l) for l in ls], sb.any(e)
    G = lits(F, ("ge", c), ("ge", b.C - 1 - c))
    ex = [l for l in ls if l[0] == "b"]
    need(len(ex) == 1 and ex[0][1][0] == "exists" and ex[0][2] is False, "the columns taken")
    need(holds(G, *[l for l in ls if l[0] != "b"]), "the other conditions on the column")
    _, n, bv, cases = ex[0][1]
    need(P(n) == b.R, "all rows are searched for the pivot")
    r = P(var("r"))
    Gr = lits(G, ("ge", r), ("ge", b.R - 1 - r))
    s2 = Subst({bv: r})
    pivot_cases(Gr, [[s2.any(l) for l in k] for k in cases], b, r, c)
    m = M(S, e)
    need(holds(G, eq(m.R - b.C), eq(m.C - 1)), "a column vector")
    s = m.seq
    i = P(var("i"))
    Gi = lits(G, ("ge", i), ("ge", b.C - 1 - i))
    base = s
    if isinstance(s, MUpdSeq):
        base = s.base
        need(len(s.vars) == 1 and P(s.vars[0][1]) == b.R, "an entry for each row")
        s3 = Subst({s.vars[0][0]: r})
        at = s3.any(s.idx)
        for ls, x in s3.any(s.cases):
            H = lits(Gr, *ls)
            if H is None or contradictory(H):
                continue
            if x == KEEP:
                # the pivot column is not c (c has none), so the form is zero there or the row is
                K = lits(H, ne(at - c))
                need(K is None or holds(K, req(b.at(r, c, K))), "entries left out are zero")
                continue
            need(holds(H, rne(b.at(r, at, H)), req(x + b.at(r, c, H))), "minus the entry of the form, at the pivot")
            j = P(var("pj"))
            K = lits(H, ("ge", j), ("ge", at - 1 - j))
            need(K is None or holds(K, req(b.at(r, j, K))), "nothing before the pivot")
    else:
        need(False, "the entries at the pivots")
    x = pure_get(base, i, Gi, S.types)
    for l, one in ((eq(i - c), ONE), (ne(i - c), ZERO)):
        K = lits(Gi, l)
        need(K is None or holds(K, req(x - one)), "one at the column, zero elsewhere")


def image(S):
    r = next((x for x in S.prog.roots if x["name"] == "compute_range"), None)
    if r is None:
        S.violate("compute_range", "anchor", "the public function this property is stated for is not in the crate any more")
        return
    fn = label(r)
    F, p, b, orig = form_inputs(S, r)
    args, store, types = S.inargs
    outs, hs = heads(S, r, args, store, types, F)
    if outs is None or S.peel is not None:
        return
    if orig is None:
        S.undecided(fn, RANGE, "the original matrix is not kept by reference")
        return

    def prepare(w):
        put_form(w, p, b, orig, True)
        w.state[orig.seq.key] = [w.rng.choice((3, 5, 7, 11, 13)) * 100 + k for k in range(len(w.state[orig.seq.key]))]

    def bad(w, o):
        if o.kind != "ret":
            return True
        R, C, e = wmat(w, orig)
        want = [(R, 1, e[q::C]) for q in sorted({x for x in wpivots(wmat(w, b)) if x is not None})]
        return vectors(S, w, o.val) != want
    why = {}
    for o in outs:
        try:
            if o.kind != "ret":
                need(contradictory(o.facts), o.msg)
                S.proved(fn, NEVER)
                continue
            range_form(S, o, b, orig)
            S.proved(fn, RANGE)
        except Attempt as e:
            why[NEVER if o.kind != "ret" else RANGE] = str(e)
        except (Undecided, RecursionError) as e:
            why[NEVER if o.kind != "ret" else RANGE] = "analysis: %s" % e
    for k, e in sorted(why.items()):
        refuted(S, fn, k, e, F, outs, bad, prepare)


def sorted_in(x):
    """the sorted sequences a term takes elements of"""
    return {a.args[0] for a in fv(x) if a.kind == "from" and isinstance(a.args[0], SortSeq)}


def range_form(S, o, b, orig):
    v, F = o.val, o.facts
    need(isinstance(v, CompSeq), "one vector per element of a sequence")
    k, i = P(var("k")), P(var("i"))
    G = lits(F, ("ge", k), ("ge", v.n - 1 - k))
    need(G is not None, "reachable")
    m = M(S, pure_get(v, k, G, S.types))
    need(holds(G, eq(m.R - orig.R), eq(m.C - 1)), "a column of the original")
    Gi = lits(G, ("ge", i), ("ge", orig.R - 1 - i))
    x = pure_get(m.seq, i, Gi, S.types)
    ss = sorted_in(x)
    need(len(ss) == 1, "the pivot columns in order")
    s = ss.pop()
    need(s.order == ("set",) and v.n == s.n, "as many as there are pivot columns")
    f = s.base
    need(isinstance(f, FiltSeq) and f.m == b.R and len(f.cases) == 1, "all rows are searched")
    rows = [a for a in fv(x) if a.kind == "from" and a.args[0] == f and P(a.args[1]).single() is not None
            and P(a.args[1]).single().kind == "from" and P(a.args[1]).single().args == (s, k)]
    need(len(rows) == 1, "the element of the sorted pivot columns at the index of the vector")
    q = P(Subst({f.bv: P(rows[0])}).any(f.cases[0][1]))
    need(holds(Gi, req(x - orig.at(i, q, Gi))), "the column at the pivot")
    r = P(var("r"))
    Gr = lits(F, ("ge", r), ("ge", b.R - 1 - r))
    sb = Subst({f.bv: r})
    for ls, c in sb.any(f.cases):
        pivot_of(Gr, ls, b, r, P(c))
    j = P(var("pj"))
    for ls in sb.any(f.drop):
        K = lits(Gr, *ls)
        K = K and lits(K, ("ge", j), ("ge", b.C - 1 - j))
        need(K is None or contradictory(K) or holds(K, req(b.at(r, j, K))), "rows left out are zero")


def pivot_of(G, ls, b, r, c):
    H = lits(G, *ls)
    if H is None or contradictory(H):
        return
    need(holds(H, rne(b.at(r, c, H))), "a column taken for a pivot column is one")
    j = P(var("pj"))
    K = lits(H, ("ge", j), ("ge", c - 1 - j))
    need(K is None or holds(K, req(b.at(r, j, K))), "nothing before the pivot")


def l09(S):
    S.named = True
    counting(S, "zero_rows", ZEROS, lambda b, z: z, lambda t: wpivots(t).count(None))
    counting(S, "rank", RANK, lambda b, z: b.R - z, lambda t: t[0] - wpivots(t).count(None))
    counting(S, "nullity", NULL, lambda b, z: b.C - b.R + z, lambda t: t[1] - t[0] + wpivots(t).count(None))
    kernel(S)
    image(S)


CHECKS = {"L09": l09}
