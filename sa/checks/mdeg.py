"""M01-M05: multidegrees, monomial divisibility and the monomial orders."""
from .common import *


# ------------------------------------------------------------------------------------- helpers
def md_seq(S, v):
    """the exponents of a multidegree"""
    v = force(v, S.types)
    if isinstance(v, AdtV) and last(v.path) == "MultiDegree":
        s = force(v.fields[0], S.types)
        if isinstance(s, Seq):
            return s
    raise Undecided("not a multidegree: %r" % (v,))


def strip(S, ty):
    t = S.types.T[ty]
    while t["k"] == "ref":
        ty = t["e"]
        t = S.types.T[ty]
    return ty, t


def trimmed(F, s, types):
    """F with: the last exponent of s is not zero"""
    if isinstance(s, LitSeq):
        return F
    v = atom("q", ("t", 0), "usize")
    return F.add_forall([(v, s.n - 1, s.n)], [[ne(pure_get(s, P(v), F, types))]])


def term_of(S, v):
    v = force(v, S.types)
    if isinstance(v, AdtV) and last(v.path) == "Term":
        return force(v.fields[0], S.types), md_seq(S, v.fields[1])
    raise Undecided("not a term: %r" % (v,))


def md_inputs(S, r, nonzero=True, F=None):
    """facts about the multidegrees and terms among the inputs; the inputs themselves"""
    F = F or Facts()
    ins = []
    for i, ty in enumerate(params(S, r)):
        ty, t = strip(S, ty)
        v = SymV(("in", "a%d" % i), ty)
        if t["k"] == "adt" and last(t["path"]) == "MultiDegree":
            s = md_seq(S, v)
            F = trimmed(F, s, S.types)
            ins.append(s)
        elif t["k"] == "adt" and last(t["path"]) == "Term":
            c, s = term_of(S, v)
            F = trimmed(F, s, S.types)
            if nonzero:
                F = F.add(("rne", c))
            ins.append((c, s))
        else:
            x = force(v, S.types)
            ins.append(x if isinstance(x, (Poly, Seq)) else None)
    return F, ins


def ecases(S, s, i, F):
    """the exponent at position i >= 0 of a sequence (zero beyond its end), by cases"""
    n = s.n if not isinstance(s, TrimSeq) else s.m
    out = []
    G = F.add(("ge", n - 1 - i))
    if G is not None:
        if isinstance(s, TrimSeq):
            m = Subst({s.bv: P(i)})
            for l, v in s.keep:
                out.append((((("ge", n - 1 - i)),) + tuple(norm_lit(m.any(x)) for x in l), m.any(v)))
            for l in s.drop:
                out.append((((("ge", n - 1 - i)),) + tuple(norm_lit(m.any(x)) for x in l), P(s.fill)))
        else:
            out.append(((("ge", n - 1 - i),), pure_get(s, i, G, S.types)))
    out.append(((("ge", i - n),), ZERO))
    return out


def forall_cases(F, css, k):
    """k(G, values) for every combination of the cases that is not excluded by F"""
    def go(j, G, vals):
        if j == len(css):
            return k(G, vals)
        for ls, v in css[j]:
            H = G.add_all(ls)
            if H is None or contradictory(H):
                continue
            if not go(j + 1, H, vals + [v]):
                return False
        return True
    return go(0, F, [])


def wlist(w, s):
    return [int(x) for x in w.seq(s)]


def pad(*ls):
    n = max([len(l) for l in ls] + [0])
    return [list(l) + [0] * (n - len(l)) for l in ls]


def exponents(S, fn, what, F, s, ins, spec, wspec):
    """the exponents of s are spec(exponents of ins) at every position, with zeros beyond the ends"""
    i = P(var("i"))
    G = F.add(("ge", i))

    def k(H, vals):
        f = spec(i, vals[1:])
        return prove(H, L(eq(vals[0], f)))
    try:
        ok = forall_cases(G, [ecases(S, x, i, G) for x in [s] + list(ins)], k)
    except (Undecided, RecursionError) as e:
        ok = False

    def pred(w):
        got = wlist(w, s)
        want = wspec(w, *[wlist(w, x) for x in ins])
        a, b = pad(got, want)
        return a == b
    settle(S, fn, what, F, ok, (s,) + tuple(ins), pred, "has other exponents")


def settle(S, fn, what, F, ok, vals, pred, why):
    if ok:
        S.proved(fn, what)
        return
    w = None
    if not any(inexact(v) for v in vals):
        try:
            w = refute(F, ("pred", pred), S.types, tries=3000)
        except (Undecided, RecursionError):
            w = None
    if w is not None:
        S.violate(fn, what, "%s on the path %s" % (why, repr(F)[:600]), w)
    else:
        S.undecided(fn, what, "neither shown nor refuted under %s" % repr(F)[:300])


def no_trailing_zero(S, fn, what, F, s):
    ok = False
    try:
        if isinstance(s, TrimSeq):
            i = P(var("i"))
            G = F.add_all([("ge", i), ("ge", s.m - 1 - i)])
            m = Subst({s.bv: i})
            ok = True
            for l, v in s.keep:
                H = G.add_all([norm_lit(m.any(x)) for x in l]) if G is not None else None
                if H is not None and not prove(H, L(ne(m.any(v)))):
                    ok = False
            if not ok:
                # or the last position is kept, with a nonzero value
                ok = True
                m = Subst({s.bv: s.m - 1})
                G = F.add(("ge", s.m - 1))
                for l, v in s.keep:
                    H = G.add_all([norm_lit(m.any(x)) for x in l]) if G is not None else None
                    if H is not None and not prove(H, L(ne(m.any(v)))):
                        ok = False
                for l in s.drop:
                    H = G.add_all([norm_lit(m.any(x)) for x in l]) if G is not None else None
                    if H is not None and not prove(H, False):
                        ok = False
        else:
            G = F.add(("ge", s.n - 1))
            ok = G is None or contradictory(G) or prove(G, L(ne(pure_get(s, s.n - 1, G, S.types))))
    except (Undecided, RecursionError):
        ok = False

    def pred(w):
        x = wlist(w, s)
        return not x or x[-1] != 0
    settle(S, fn, what, F, ok, (s,), pred, "returns a multidegree with a trailing zero")


def md_walk(S, v, out=None):
    """all multidegrees inside a value, but not those of a polynomial"""
    out = [] if out is None else out
    v = force(v, S.types)
    if isinstance(v, AdtV):
        if last(v.path) == "MultiDegree":
            out.append(v)
        elif last(v.path) != "Polynomial":
            for x in v.fields:
                md_walk(S, x, out)
    elif isinstance(v, TupV):
        for x in v.fields:
            md_walk(S, x, out)
    return out


def quiet(S, fn, o):
    return o.kind == "ret"


# ------------------------------------------------------------------------------------- M01
def mentions(S, ty, name):
    return name in tyname(S.types, ty) or any(last(S.types.T[a].get("path", "")) == name for a in (S.types.T[ty].get("args") or []) if isinstance(a, int))


def m01(S):
    seen = set()
    for r in S.prog.roots:
        if r["kind"] != "fn" or not (r["pub"] or r.get("trait")):
            continue
        b = S.prog.body(r["key"])
        if b is None:
            continue
        rt = b.locals[0]
        ps = params(S, r)
        yields = mentions(S, rt, "MultiDegree") or (mentions(S, rt, "Term") and "Iter" not in tyname(S.types, rt) and any(mentions(S, p, "Term") for p in ps) and not any(mentions(S, p, "Polynomial") for p in ps))
        upd = any(tyname(S.types, p) == "&mut MultiDegree" for p in ps) and tyname(S.types, rt) == "()"
        if not (yields or upd) or tyname(S.types, rt).startswith("&"):
            continue
        if last(r.get("trait")) in ("Debug", "Display", "Hash"):
            continue
        fn = label(r)
        F, ins = md_inputs(S, r, nonzero=False)
        if upd:
            F = Facts()          # the updated multidegree need not be trimmed
        outs = S.explore(fn, root=r, facts=F, tag="m01%d" % (id(r) % 1000000))
        seen.add(r["name"])
        for o in outs or ():
            if o.kind != "ret":
                continue
            vals = md_walk(S, o.val)
            if upd:
                for k, v in o.store.items():
                    if k[0] == "A":
                        vals += md_walk(S, v)
            for v in vals:
                no_trailing_zero(S, fn, "no trailing zero exponent", o.facts, md_seq(S, v))
    for n in ("from_vec", "var", "trim_zeros", "zero", "checked_sub"):
        the(S, "MultiDegree", None, n)
    the(S, "MultiDegree", "Add", "add")
    # the zero multidegree is the empty one
    for ty, tr, n in (("MultiDegree", None, "zero"), ("MultiDegree", None, "new"), ("MultiDegree", "Default", "default")):
        for r in find(S, ty, tr, n):
            for o in S.explore(label(r), root=r) or ():
                S.structural(label(r), "is the empty multidegree", o.kind == "ret" and md_seq(S, o.val).n.const() == 0 if o.kind == "ret" else False, "does not return the empty multidegree")
    for r in find(S, "MultiDegree", None, "is_zero"):
        F, ins = md_inputs(S, r)
        for o in S.explore(label(r), root=r, facts=F, tag="z") or ():
            z = L(("ge", -ins[0].n))
            S.goal(label(r), "accepts exactly the empty multidegree", o.facts, AND(OR(f_not(o.val), z), OR(o.val, f_not(z))) if o.kind == "ret" else False)


# ------------------------------------------------------------------------------------- M02
def exists_pos(S, F, ins, test, cands):
    """some candidate position i >= 0 where test(i, exponents) is provable"""
    for i in cands:
        if not (F.decide(("ge", i)) or prove(F, L(("ge", i)))):
            continue
        try:
            if forall_cases(F, [ecases(S, s, i, F) for s in ins], lambda H, v: prove(H, test(i, v))):
                return True
        except (Undecided, RecursionError):
            pass
    return False


def positions(F, ins):
    """positions the path facts talk about"""
    out = []

    def add(p):
        if p not in out:
            out.append(p)
    for a in sorted(fv(tuple(F.lits)), key=lambda a: a.s):
        if a.kind == "it":
            add(P(a))
        if a.kind == "x" and isinstance(a.args[0], tuple) and a.args[0][0] == "el" and isinstance(a.args[0][2], Poly):
            add(a.args[0][2])
    for s in ins:
        n = s.m if isinstance(s, TrimSeq) else s.n
        add(n - 1)
    for s in ins:
        add(s.n)
    add(ZERO)
    return out


def sum_of(S, s):
    v = atom("q", ("k", 1), "usize")
    return Sum(ZERO, s.n, v, pure_get(s, P(v), Facts(), S.types))


def sum_lemmas(F, *seqs_sums):
    """partial sums of nonnegative numbers are at most the whole sum"""
    out = []
    for a in sorted(fv(tuple(F.lits)), key=lambda a: a.s):
        if a.kind == "sum" and not a.args[0].t:
            for T in seqs_sums:
                for b in T.atoms():
                    if b.kind == "sum" and b.args[3] == a.args[3] and b.args[2] == a.args[2] and a != b:
                        hi = a.args[1]
                        el = subst(a.args[3], {a.args[2]: hi})
                        if prove(F, AND(("ge", hi), ("ge", b.args[1] - 1 - hi))):
                            out.append(("ge", P(b) - P(a) - el))
                        elif prove(F, AND(("ge", hi), ("ge", b.args[1] - hi))):
                            out.append(("ge", P(b) - P(a)))
    return out


def single(S, fn, F, m, idx, deg):
    """the exponents m are those of the variable idx to the power deg"""
    i = P(var("i"))

    def k(H, v):
        return prove(H, AND(OR(("ge", idx - 1 - i), ("ge", i - 1 - idx), eq(v[0], deg)), OR(eq(i, idx), eq(v[0]))))
    try:
        G = F.add(("ge", i))
        ok = forall_cases(G, [ecases(S, m, i, G)], k)
    except (Undecided, RecursionError):
        ok = False

    def pred(w):
        l = wlist(w, m)
        x, d = w.num(idx), w.num(deg)
        l, e = pad(l, [0] * int(x) + [d])
        return l == e
    settle(S, fn, "exponent deg at idx and zero elsewhere", F, ok, (m, idx, deg), pred, "has other exponents")


def m02(S):
    # addition, all operand forms
    for r in find(S, "MultiDegree", "Add", "add") or [the(S, "MultiDegree", "Add", "add")]:
        if r is None:
            continue
        F, (a, b) = md_inputs(S, r)
        fn = label(r)
        for o in S.explore(fn, root=r, facts=F, tag=None) or ():
            if o.kind == "ret":
                exponents(S, fn, "adds the exponents of each variable", o.facts, md_seq(S, o.val), [a, b],
                          lambda i, v: v[0] + v[1], lambda w, x, y: [p + q for p, q in zip(*pad(x, y))])
            else:
                over_or(S, fn, "panics only if a sum of exponents does not fit", o, [a, b])
    r = the(S, "MultiDegree", None, "checked_sub")
    if r:
        F, (a, b) = md_inputs(S, r)
        fn = label(r)
        for o in S.explore(fn, root=r, facts=F, tag=None) or ():
            if o.kind != "ret":
                S.reach(fn, "checked subtraction never panics", o.facts, o.msg)
            elif o.val.variant == 1:
                m = md_seq(S, o.val.fields[0])
                exponents(S, fn, "componentwise difference", o.facts, m, [a, b],
                          lambda i, v: v[0] - v[1], lambda w, x, y: [p - q for p, q in zip(*pad(x, y))])
            else:
                ok = exists_pos(S, o.facts, [a, b], lambda i, v: L(("ge", v[1] - v[0] - 1)), positions(o.facts, [a, b]))
                settle(S, fn, "absent only if some exponent would become negative", o.facts, ok, (a, b),
                       lambda w: any(p < q for p, q in zip(*pad(wlist(w, a), wlist(w, b)))), "returns nothing although every exponent of the subtrahend is at most the corresponding one")
    r = the(S, "MultiDegree", None, "var")
    if r:
        fn = label(r)
        _, (idx, deg) = md_inputs(S, r)
        for o in S.explore(fn, root=r, tag=None) or ():
            if o.kind != "ret":
                S.reach(fn, "never panics", o.facts, o.msg)
                continue
            single(S, fn, o.facts, md_seq(S, o.val), idx, deg)
    r = the(S, "MultiDegree", None, "from_vec")
    if r:
        fn = label(r)
        _, (v,) = md_inputs(S, r)
        for o in S.explore(fn, root=r, tag=None) or ():
            if o.kind != "ret":
                S.reach(fn, "never panics", o.facts, o.msg)
            else:
                keeps(S, fn, "keeps every exponent at its index", o.facts, md_seq(S, o.val), v)
    r = the(S, "MultiDegree", None, "trim_zeros")
    if r:
        fn = label(r)
        _, (v,) = md_inputs(S, r)
        for o in S.explore(fn, root=r, tag=None) or ():
            if o.kind != "ret":
                S.reach(fn, "never panics", o.facts, o.msg)
            else:
                keeps(S, fn, "keeps every exponent at its index", o.facts, md_seq(S, o.store[("A", "a0")]), v)
    r = the(S, "MultiDegree", None, "total_deg")
    if r:
        fn = label(r)
        F, (a,) = md_inputs(S, r)
        T = sum_of(S, a)
        for o in S.explore(fn, root=r, facts=F, tag=None) or ():
            if o.kind == "ret":
                S.goal(fn, "the sum of all exponents", o.facts, L(eq(o.val, T)))
            else:
                S.goal(fn, "panics only if the sum does not fit", o.facts, L(("ge", T - 256)), lemmas=sum_lemmas(o.facts, T), need=())
    for n in ("len",):
        r = the(S, "MultiDegree", None, n)
        if r:
            F, (a,) = md_inputs(S, r)
            for o in S.explore(label(r), root=r, tag=None) or ():
                S.goal(label(r), "the number of variables needed", o.facts, L(eq(o.val, a.n)) if o.kind == "ret" else False)


def over_or(S, fn, what, o, ins):
    ok = exists_pos(S, o.facts, ins, lambda i, v: L(("ge", v[0] + v[1] - 256)), positions(o.facts, ins))
    settle(S, fn, what, o.facts, ok, tuple(ins), lambda w: any(p + q > 255 for p, q in zip(*pad(*[wlist(w, x) for x in ins]))),
           "panics (%s) although every sum of exponents fits" % o.msg)


def keeps(S, fn, what, F, m, v):
    """the exponents of m are those of v, zeros beyond"""
    exponents(S, fn, what, F, m, [v], lambda i, x: x[0], lambda w, x: x)


# ------------------------------------------------------------------------------------- M03
def succ_formula(S, F, ok_true, a, b):
    pass


def m03(S):
    r = the(S, "MultiDegree", None, "is_succ")
    if r:
        F, (a, b) = md_inputs(S, r)
        divis(S, label(r), "true exactly when every exponent is at most the corresponding one", S.explore(label(r), root=r, facts=F, tag=None), a, b)
    r = the(S, "Term", None, "divides")
    if r:
        F, ((c, a), (d, b)) = md_inputs(S, r)
        divis(S, label(r), "divides exactly when every exponent is at most the corresponding one", S.explore(label(r), root=r, facts=F, tag=None), a, b)
    r = the(S, "Term", None, "try_div")
    if r:
        F, ((c, a), (d, b)) = md_inputs(S, r)
        fn = label(r)
        for o in S.explore(fn, root=r, facts=F, tag=None) or ():
            if o.kind != "ret":
                S.reach(fn, "never panics on nonzero terms", o.facts, o.msg)
            elif o.val.variant == 1:
                q, m = term_of(S, o.val.fields[0])
                exponents(S, fn, "exponent differences", o.facts, m, [a, b], lambda i, v: v[0] - v[1], lambda w, x, y: [p - q for p, q in zip(*pad(x, y))])
                S.goal(fn, "quotient of the coefficients", o.facts, L(("req", q * d - c)))
            else:
                none_ok(S, fn, "absent only if some exponent of the divisor is larger", o, a, b)
    for r in [r for r in S.prog.roots if r["name"] == "monic_lcm"] or [the(S, "Term", None, "monic_lcm")]:
        if r is None:
            continue
        F, ((c, a), (d, b)) = md_inputs(S, r)
        fn = label(r)
        for o in S.explore(fn, root=r, facts=F, tag=None) or ():
            if o.kind != "ret":
                S.reach(fn, "never panics on nonzero terms", o.facts, o.msg)
                continue
            q, m = term_of(S, o.val)
            S.goal(fn, "coefficient one", o.facts, L(("req", q - 1)))
            lub(S, fn, "componentwise maximum", o.facts, m, a, b)


def lub(S, fn, what, F, m, a, b):
    i = P(var("i"))
    G = F.add(("ge", i))

    def k(H, v):
        x, y, z = v
        return prove(H, AND(("ge", x - y), ("ge", x - z), OR(eq(x, y), eq(x, z))))
    try:
        ok = forall_cases(G, [ecases(S, s, i, G) for s in (m, a, b)], k)
    except (Undecided, RecursionError):
        ok = False

    def pred(w):
        x, y, z = pad(wlist(w, m), wlist(w, a), wlist(w, b))
        return x == [max(p, q) for p, q in zip(y, z)]
    settle(S, fn, what, F, ok, (m, a, b), pred, "has other exponents")


def none_ok(S, fn, what, o, a, b):
    ok = exists_pos(S, o.facts, [a, b], lambda i, v: L(("ge", v[1] - v[0] - 1)), positions(o.facts, [a, b]))
    settle(S, fn, what, o.facts, ok, (a, b), lambda w: any(p < q for p, q in zip(*pad(wlist(w, a), wlist(w, b)))), "says no although the exponents allow it")


def divis(S, fn, what, outs, a, b):
    """boolean outcomes: true iff a <= b componentwise"""
    for o in outs or ():
        if o.kind != "ret":
            S.reach(fn, "never panics", o.facts, o.msg)
            continue
        for val, G in ((True, o.facts.add_all(lits_of(o.val, True)) if not isinstance(o.val, bool) else o.facts if o.val else None),
                       (False, o.facts.add_all(lits_of(o.val, False)) if not isinstance(o.val, bool) else o.facts if not o.val else None)):
            if G is None:
                continue
            if val:
                i = P(var("i"))
                H = G.add(("ge", i))
                try:
                    ok = forall_cases(H, [ecases(S, s, i, H) for s in (a, b)], lambda K, v: prove(K, L(("ge", v[1] - v[0]))))
                except (Undecided, RecursionError):
                    ok = False
                settle(S, fn, what, G, ok, (a, b), lambda w: all(p <= q for p, q in zip(*pad(wlist(w, a), wlist(w, b)))), "says yes although an exponent is larger")
            else:
                ok = exists_pos(S, G, [a, b], lambda i, v: L(("ge", v[0] - v[1] - 1)), positions(G, [a, b]))
                settle(S, fn, what, G, ok, (a, b), lambda w: any(p > q for p, q in zip(*pad(wlist(w, a), wlist(w, b)))), "says no although every exponent is at most the corresponding one")


def lits_of(f, val):
    """literals of a conjunction (None: not a conjunction)"""
    f = f if val else f_not(f)
    if isinstance(f, bool):
        return [] if f else [("ge", P(-1))]
    if f[0] == "lit":
        return [f[1]]
    if f[0] == "and":
        return [l for g in f[1] for l in lits_of(g, True)]
    raise Undecided("a disjunction")


# ------------------------------------------------------------------------------------- M04
def ordering(S, v):
    v = force(v, S.types)
    if isinstance(v, AdtV) and last(v.path) == "Ordering":
        return v.variant - 1
    raise Undecided("not an ordering: %r" % (v,))


def sgn(x):
    return (x > 0) - (x < 0)


def lex_w(x, y):
    x, y = pad(x, y)
    return sgn((x > y) - (x < y))


def revlex_w(x, y):
    x, y = pad(x, y)
    return lex_w(x[::-1], y[::-1])


def graded_w(tie):
    return lambda x, y: sgn(sum(x) - sum(y)) or tie(x, y)


ORDERS = {
    "Lex": ("lex", lex_w),
    "RevLex": ("revlex", revlex_w),
    "GrLex": ("lex", graded_w(lex_w)),
    "GRevLex": ("-revlex", graded_w(lambda x, y: -revlex_w(x, y))),
}


def tie_ok(S, F, kind, s, a, b):
    """the facts show that the (lexicographic) comparison of a and b gives sign s"""
    if kind[0] == "-":
        return tie_ok(S, F, kind[1:], -s, a, b)
    if s == 0:
        i = P(var("i"))
        G = F.add(("ge", i))
        return forall_cases(G, [ecases(S, x, i, G) for x in (a, b)], lambda H, v: prove(H, L(eq(v[0], v[1]))))
    if s < 0:
        a, b = b, a
    # a is larger: at some position k, with equality before (lex) or after (revlex) it
    cands = []
    for k in positions(F, [a, b]):
        if prove(F, AND(("ge", k))):
            cands.append(k)
    for k in cands:
        if not forall_cases(F, [ecases(S, x, k, F) for x in (a, b)], lambda H, v: prove(H, L(("ge", v[0] - v[1] - 1)))):
            continue
        i = P(var("i"))
        G = F.add_all([("ge", i), ("ge", k - 1 - i)] if kind == "lex" else [("ge", i - k - 1)])
        if forall_cases(G, [ecases(S, x, i, G) for x in (a, b)], lambda H, v: prove(H, L(eq(v[0], v[1])))):
            return True
    if kind == "lex":
        # b is a proper prefix of a, whose last exponent is not zero
        if prove(F, L(("ge", a.n - b.n - 1))):
            i = P(var("i"))
            G = F.add_all([("ge", i), ("ge", b.n - 1 - i)])
            if forall_cases(G, [ecases(S, x, i, G) for x in (a, b)], lambda H, v: prove(H, L(eq(v[0], v[1])))):
                return True
    return False


def graded_ok(S, F, kind, s, a, b):
    A, B = sum_of(S, a), sum_of(S, b)
    if s and prove(F, L(("ge", s * (A - B) - 1))):
        return True
    if not prove(F, L(eq(A, B))):
        return False
    return kind is not None and tie_ok(S, F, kind, s, a, b) or (kind is None and s == 0)


def m04(S):
    for ty, (kind, wf) in ORDERS.items():
        r = the(S, ty, "MonomialOrder", "cmp")
        if r is None:
            continue
        order(S, r, ("graded", kind) if ty.startswith("G") else ("plain", kind), wf)
    for r in find(S, None, None, "grad") or [the(S, None, None, "grad")]:
        if r is not None:
            order(S, r, ("graded", None), lambda x, y: sgn(sum(x) - sum(y)))


def order(S, r, how, wf):
    fn = label(r)
    F, (a, b) = md_inputs(S, r)
    for o in S.explore(fn, root=r, facts=F, tag=None) or ():
        if o.kind != "ret":
            S.reach(fn, "never panics", o.facts, o.msg)
            continue
        try:
            s = ordering(S, o.val)
        except Undecided as e:
            S.undecided(fn, "the documented order", str(e))
            continue
        try:
            ok = (graded_ok if how[0] == "graded" else tie_ok)(S, o.facts, how[1], s, a, b)
        except (Undecided, RecursionError):
            ok = False
        settle(S, fn, "the documented order (%s)" % {-1: "less", 0: "equal", 1: "greater"}[s], o.facts, ok, (a, b),
               lambda w: wf(wlist(w, a), wlist(w, b)) == s, "returns %s against the documented order" % {-1: "less", 0: "equal", 1: "greater"}[s])


# ------------------------------------------------------------------------------------- M05
def m05(S):
    def no_wrap(fn, o):
        if o.kind == "panic" and o.val in ("overflow",):
            S.reach(fn, "no sum of degrees relies on debug overflow checks", o.facts, "overflows the type of a single degree (wraps in release builds)")
        elif o.kind == "ret" and "wrapped" in o.flags:
            S.reach(fn, "no sum of degrees wraps around", o.facts, "a value wraps around or is truncated on this path")
        else:
            S.proved(fn, "no wrapping arithmetic on the path")
    for r in find(S, "MultiDegree", "Add", "add") or [the(S, "MultiDegree", "Add", "add")]:
        if r is None:
            continue
        F, (a, b) = md_inputs(S, r)
        fn = label(r)
        for o in S.explore(fn, root=r, facts=F, tag=None) or ():
            no_wrap(fn, o)
            if o.kind == "ret":
                m = md_seq(S, o.val)
                i = P(var("i"))
                G = o.facts.add(("ge", i))
                try:
                    ok = forall_cases(G, [ecases(S, x, i, G) for x in (m, a, b)], lambda H, v: prove(H, AND(("ge", 255 - v[1] - v[2]), eq(v[0], v[1] + v[2]))))
                except (Undecided, RecursionError):
                    ok = False
                settle(S, fn, "returns only if every sum of exponents fits", o.facts, ok, (m, a, b),
                       lambda w: all(p + q <= 255 for p, q in zip(*pad(wlist(w, a), wlist(w, b)))), "returns although a sum of exponents exceeds 255")
    r = the(S, "MultiDegree", None, "total_deg")
    if r:
        fn = label(r)
        F, (a,) = md_inputs(S, r)
        T = sum_of(S, a)
        for o in S.explore(fn, root=r, facts=F, tag=None) or ():
            no_wrap(fn, o)
            if o.kind == "ret" and isinstance(o.val, Poly):
                S.goal(fn, "returns the exact sum", o.facts, L(eq(o.val, T)))
    ords = [x for ty in ORDERS for x in [the(S, ty, "MonomialOrder", "cmp")] if x] + find(S, None, None, "grad")
    for r in ords:
        fn = label(r)
        F, (a, b) = md_inputs(S, r)
        for o in S.explore(fn, root=r, facts=F, tag=None) or ():
            if o.kind == "panic":
                S.reach(fn, "comparing degrees never panics or wraps", o.facts, "panics: %s" % o.msg)
            elif "wrapped" in o.flags:
                S.reach(fn, "comparing degrees never panics or wraps", o.facts, "a value wraps around on this path")
            else:
                S.proved(fn, "no wrapping arithmetic on the path")


CHECKS = {"M01": m01, "M02": m02, "M03": m03, "M04": m04, "M05": m05}
