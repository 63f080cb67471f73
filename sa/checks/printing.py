"""P13: printed multidegrees, terms, polynomials and rationals, as the sequence of texts written to the formatter."""
from .common import *
from .mdeg import md_seq, term_of, trimmed
from .pivot import assign, on_values
from .num import rat, reduced_facts, gcd_contract
from ..witness import W, NoValue, Reject
from .. import text
import random
import time
from fractions import Fraction

VARS = "xyzuv"
DIGITS = "⁰¹²³⁴⁵⁶⁷⁸⁹"


# ------------------------------------------------------------------ the texts themselves
def sup(n):
    return "".join(DIGITS[int(c)] for c in str(int(n)))


def num_text(x):
    return str(Fraction(x))


def md_text(es):
    es = [int(e) for e in es]
    if len(es) > len(VARS):
        return "X[%s]" % ", ".join(map(str, es))
    return "".join(v if e == 1 else v + sup(e) for v, e in zip(VARS, es) if e)


def coef_text(c):
    if isinstance(c, tuple):
        n, d = ints(c)
        return "0" if n == 0 else str(n) if d == 1 else "%d/%d" % (n, d)
    return num_text(c)


def ints(v):
    """the numerator and denominator in an evaluated rational (an integer: over one)"""
    def go(v):
        return [y for x in v[2:] for y in go(x)] if isinstance(v, tuple) else [int(v)]
    x = go(v)
    return x if len(x) == 2 else [x[0], 1]


def negated(c):
    if isinstance(c, tuple):
        n, d = ints(c)
        return (None, None, -n, d)
    return -c


def negative(c):
    return ints(c)[0] < 0 if isinstance(c, tuple) else c < 0


def is_unit(c, s):
    return ints(c) == [s, 1] if isinstance(c, tuple) else c == s


def term_text(c, es):
    if not es:
        return coef_text(c)
    return ("" if is_unit(c, 1) else "-" if is_unit(c, -1) else coef_text(c)) + md_text(es)


def poly_text(ts):
    if not ts:
        return "0"
    return term_text(*ts[0]) + "".join(" - " + term_text(negated(c), es) if negative(c) else " + " + term_text(c, es) for c, es in ts[1:])


def written(parts):
    """the text of evaluated parts"""
    out = ""
    for p in parts:
        if p[0] == "s":
            out += p[1]
        elif p[0] == "sup":
            out += sup(p[1])
        elif p[0] == "with":
            out += "{%s}" % (p[1],) + written([p[2]])
        elif p[0] == "dbg":
            out += "[%s]" % ", ".join(str(int(x)) for x in p[2]) if isinstance(p[2], tuple) else "%s:%s" % (p[1], p[2])
        elif p[1] == "MultiDegree":
            out += md_text(p[2][2])
        elif p[1] == "Term":
            out += term_text(p[2][2], p[2][3][2])
        else:
            out += coef_text(p[2])
    return out


# ------------------------------------------------------------------ comparing parts under the facts of a path
def merged(parts):
    out = []
    for p in parts:
        if p[0] == "s" and out and out[-1][0] == "s":
            out[-1] = ("s", out[-1][1] + p[1])
        elif p != ("s", ""):
            out.append(p)
    return out


def same_value(S, F, a, b):
    a, b = force(a, S.types), force(b, S.types)
    if a == b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return prove(F, L(eq(a, b))) or prove(F, L(req(a, b)))
    if isinstance(a, AdtV) and isinstance(b, AdtV):
        return a.path == b.path and a.variant == b.variant and len(a.fields) == len(b.fields) and all(same_value(S, F, x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, Seq) and isinstance(b, Seq):
        if not prove(F, L(eq(a.n, b.n))):
            return False
        i = P(var("pe"))
        G = F.add_all([("ge", i), ("ge", a.n - 1 - i)])
        return G is None or same_value(S, G, pure_get(a, i, G, S.types), pure_get(b, i, G, S.types))
    return False


def same_parts(S, F, a, b):
    a, b = merged(a), merged(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[:-1] != y[:-1]:
            return False
        if x[0] == "s":
            if x != y:
                return False
        elif x[0] == "with" or not same_value(S, F, x[-1], y[-1]):
            return False
    return True


def branches(F, tests):
    """the cases of a list of exhaustive alternatives (literals) that the facts allow"""
    return [(k, G) for k, ls in enumerate(tests) for G in [F.add_all(ls)] if G is not None]


def md_spec(F, e, S, i=0):
    """(facts, parts) of a printed multidegree with exponents e"""
    if i == 0:
        for k, G in branches(F, [[("ge", len(VARS) - e.n)], [("ge", e.n - 1 - len(VARS))]]):
            if k:
                yield G, [("s", "X"), ("dbg", "Vec", e)]
            else:
                yield from md_spec(G, e, S, -1)
        return
    i = 0 if i < 0 else i
    if i >= len(VARS):
        yield F, []
        return
    for k, G in branches(F, [[("ge", e.n - 1 - i)], [("ge", i - e.n)]]):
        if k:
            yield G, []
            continue
        x = pure_get(e, P(i), G, S.types)
        for j, H in branches(G, [[eq(x)], [eq(x - 1)], [("ge", x - 2)]]):
            for J, rest in md_spec(H, e, S, i + 1):
                yield J, [[], [("s", VARS[i])], [("s", VARS[i]), ("sup", x)]][j] + rest


def term_spec(F, c, md, tag, S):
    for k, G in branches(F, [[eq(md_seq(S, md).n)], [("ge", md_seq(S, md).n - 1)]]):
        if not k:
            yield G, [("d", tag, c)]
            continue
        for j, H in branches(G, [[req(c, ONE)], [rne(c, ONE), req(c, -ONE)], [rne(c, ONE), rne(c, -ONE)]]):
            yield H, [[], [("s", "-")], [("d", tag, c)]][j] + [("d", "MultiDegree", md)]


def elements(seq, S):
    """the texts in a sequence: (position, literals of the case, bound, parts)"""
    off = ZERO
    for g in (seq.segs if isinstance(seq, CatSeq) else (seq,)):
        if isinstance(g, LitSeq):
            for j, x in enumerate(g.items):
                yield off + j, (), None, x.args
        elif isinstance(g, CompSeq):
            k = P(var("pk"))
            B = Subst({g.bv: k})
            for ls, x in g.cases:
                x = B.any(x)
                if not (isinstance(x, OpaqueV) and x.tag == "text"):
                    raise Undecided("an element that is no text")
                yield off + k, tuple(B.any(tuple(ls))) + (("ge", k), ("ge", P(g.n) - 1 - k)), k, x.args
        else:
            raise Undecided("text of %s" % type(g).__name__)
        off = off + g.n


# ------------------------------------------------------------------ obligations
def superscripts(S):
    """the contract of the superscript function: the decimal digits; used for its own recursive calls too"""
    def c(ex, ctx, fn, args):
        return LitSeq([text.text([("sup", args[0])])])
    rs = [r for r in S.prog.roots if r["name"] == "superscript"]
    return {r["key"]: c for r in rs} if len(rs) == 1 else {}, rs[0] if len(rs) == 1 else None


def run_fmt(S, r, F, con, tag):
    """outcomes of an implementation of Display on an empty formatter"""
    ps = params(S, r)
    args, store = [], {}
    for i, p in enumerate(ps):
        t = S.types.T[p]
        if t["k"] == "ref" and last(S.types.T[t["e"]].get("path")) == "Formatter":
            store[("A", "a%d" % i)] = LitSeq(())
            args.append(RefV(("A", "a%d" % i)))
            out = ("A", "a%d" % i)
        else:
            args.append(SymV(("in", "a%d" % i), p))
    mark = len(S.obl)
    outs = S.explore(r["path"], con, root=r, facts=F, args=args, store=store, tag=tag)
    if outs is None and S.peel is None:
        # a loop over a short list of names: unrolled
        first = S.obl[mark:]
        del S.obl[mark:]
        outs = S.explore(r["path"], con, root=r, facts=F, args=args, store=store, tag=tag + " unrolled", opts={"peel": 7})
        if outs is None:
            S.obl[mark:] = first
    return outs, out


def printed(S, *types):
    """contracts: printing a part of one of these types into the formatter (each is judged on its own)"""
    def c(ty):
        def f(ex, ctx, fn, args):
            text.append(ex, ctx, args[1], LitSeq([text.text([("d", ty, text.M.deref(ex, ctx, args[0]))])]))
            return text.ok()
        return f
    return {r["key"]: c(ty) for ty in types for r in find(S, ty, "Display", "fmt")}


def given(S, r):
    ty = params(S, r)[0]
    return force(SymV(("d", ("in", "a0")), S.types.T[ty]["e"]), S.types)


def judge(S, r, what, outs, out, proof, spec, prepare):
    fn = r["path"]
    until, found = time.time() + 60, False
    for o in outs or ():
        if o.kind != "ret":
            S.reach(fn, "never panics", o.facts, o.msg)
            continue
        v = force(o.val, S.types)
        if not (isinstance(v, AdtV) and last(v.path) == "Result"):
            S.undecided(fn, what, "result %r" % (v,))
            continue
        if v.variant != 0:
            S.reach(fn, "printing succeeds when the formatter does", o.facts, "an error is returned")
            continue
        s = o.store.get(out)
        ok = False
        try:
            ok = isinstance(s, Seq) and proof(o.facts, s)
        except (Undecided, RecursionError):
            pass
        if ok:
            S.proved(fn, what)
            continue

        def bad(w):
            return written([p for t in w.seq(s) for p in t[1:]]) != spec(w)
        if not found and time.time() < until and isinstance(s, Seq):
            found = on_values(S, fn, what, o, prepare, bad, tries=600)
            if found:
                continue
        S.undecided(fn, what, "neither shown nor refuted: %s under %s" % (repr(s)[:200], repr(o.facts)[:200]))


def exponents(S, w, e, n):
    assign(w, e.n, n)
    for i in range(n):
        assign(w, pure_get(e, P(i), Facts(), S.types), w.rng.choice((1, 1, 2, 3, 10, 12, 255) if i == n - 1 else (0, 0, 1, 1, 2, 5, 11, 100, 200)))


def mdeg_fmt(S, con):
    what = "every variable with its exponent, in order"
    r = the(S, "MultiDegree", "Display", "fmt")
    if r is None:
        return
    e = md_seq(S, given(S, r))
    F = trimmed(Facts(), e, S.types)
    outs, out = run_fmt(S, r, F, con, "p13")

    def proof(F, s):
        parts = [p for x in s.items for p in x.args] if isinstance(s, LitSeq) else None
        return parts is not None and all(same_parts(S, G, parts, want) for G, want in md_spec(F, e, S))
    judge(S, r, what, outs, out, proof, lambda w: md_text(w.seq(e)), lambda w: exponents(S, w, e, w.rng.choice((0, 1, 2, 3, 4, 5, 5, 6, 7))))


def coefficient(S, w, c):
    x = w.rng.choice((1, 1, -1, -1, 2, -2, 3, Fraction(1, 2), Fraction(-3, 2), Fraction(-1, 3), 10, -11))
    c = force(c, S.types)
    if isinstance(c, AdtV):
        n, d = rat(S, c)
        assign(w, n, Fraction(x).numerator)
        assign(w, d, Fraction(x).denominator)
    else:
        assign(w, c, x)


def cval(S, w, c):
    c = force(c, S.types)
    if isinstance(c, AdtV):
        n, d = rat(S, c)
        return (None, None, int(w.num(n)), int(w.num(d)))
    return w.num(c)


def one_of(S, w, x):
    """coefficient and exponents of a term in a valuation"""
    v = force(x, S.types)
    return cval(S, w, v.fields[0]), [int(y) for y in w.seq(md_seq(S, v.fields[1]))]


def term_fmt(S, con):
    what = "the coefficient, or its sign if it is a unit before variables"
    r = the(S, "Term", "Display", "fmt")
    if r is None:
        return
    t = given(S, r)
    c, md = force(t.fields[0], S.types), t.fields[1]
    e = md_seq(S, md)
    F = trimmed(Facts(), e, S.types)
    tag = tyname(S.types, field_ty(S, t, 0))
    outs, out = run_fmt(S, r, F, con, "p13")

    def proof(F, s):
        parts = [p for x in s.items for p in x.args] if isinstance(s, LitSeq) else None
        return parts is not None and all(same_parts(S, G, parts, want) for G, want in term_spec(F, c, md, tag, S))

    def prepare(w):
        coefficient(S, w, c)
        exponents(S, w, e, w.rng.choice((0, 0, 1, 2, 3)))
    judge(S, r, what, outs, out, proof, lambda w: term_text(*one_of(S, w, t)), prepare)


def field_ty(S, v, i):
    return S.prog.adts[v.path]["variants"][0]["fields"][i]["ty"]


def poly_fmt(S, r, con):
    what = "the terms in order, joined by the sign of each coefficient"
    p = given(S, r)
    ts = force(p.fields[0], S.types)
    F = Facts()
    k = atom("q", ("pk", 0), "usize")
    x = force(pure_get(ts, P(k), F, S.types), S.types)
    c, e = force(x.fields[0], S.types), md_seq(S, x.fields[1])
    j = atom("q", ("pj", 0), "usize")
    F = F.add_forall([(k, ZERO, ts.n), (j, e.n - 1, e.n)], [[ne(pure_get(e, P(j), F, S.types))]])
    if isinstance(c, AdtV):
        n, d = rat(S, c)
        for l in list(reduced_facts(n, d)) + [ne(n)]:
            F = F.add_forall([(k, ZERO, ts.n)], [[l]])
        sign = lambda c: ([("ge", -1 - rat(S, c)[0])], [("ge", rat(S, c)[0] - 1)])
    else:
        F = F.add_forall([(k, ZERO, ts.n)], [[rne(c)]])
        sign = lambda c: ([("rgt", -c)], [("rgt", c)])
    outs, out = run_fmt(S, r, F, con, "p13")

    def minus(c):
        if isinstance(c, AdtV):
            fs = list(c.fields)
            n = force(fs[0], S.types)
            fs[0] = AdtV(n.path, n.variant, (-force(n.fields[0], S.types),)) if isinstance(n, AdtV) else -n
            return AdtV(c.path, c.variant, tuple(fs))
        return -c

    def proof(F, s):
        if prove(F, L(eq(ts.n))):
            return isinstance(s, LitSeq) and merged([p for x in s.items for p in x.args]) == [("s", "0")]
        if not (prove(F, L(("ge", ts.n - 1))) and prove(F, L(eq(s.n, ts.n)))):
            return False
        for pos, ls, b, parts in elements(s, S):
            G = F.add_all(ls)
            if G is None:
                continue
            for first, H in branches(G, [[("ge", pos - 1)], [eq(pos)]]):
                t = force(pure_get(ts, pos, H, S.types), S.types)
                c = force(t.fields[0], S.types)
                if first:
                    if not same_parts(S, H, parts, [("d", "Term", t)]):
                        return False
                    continue
                for m, J in branches(H, sign(c)):
                    want = [("s", " + "), ("d", "Term", t)] if m else [("s", " - "), ("d", "Term", AdtV(t.path, t.variant, (minus(c),) + tuple(t.fields[1:])))]
                    if not same_parts(S, J, parts, want):
                        return False
        return True

    def prepare(w):
        n = w.rng.choice((0, 1, 2, 3, 4, 7))
        assign(w, ts.n, n)
        for i in range(n):
            v = force(pure_get(ts, P(i), Facts(), S.types), S.types)
            coefficient(S, w, v.fields[0])
            exponents(S, w, md_seq(S, v.fields[1]), w.rng.choice((0, 1, 2, 3)))
    judge(S, r, what, outs, out, proof, lambda w: poly_text([one_of(S, w, pure_get(ts, P(i), Facts(), S.types)) for i in range(int(w.num(ts.n)))]), prepare)


def rat_fmt(S, con):
    what = "the numerator, and the denominator unless it is one"
    r = the(S, "Rational", "Display", "fmt")
    if r is None:
        return
    v = given(S, r)
    n, d = rat(S, v)
    F = Facts().add_all(reduced_facts(n, d))
    outs, out = run_fmt(S, r, F, con, "p13")

    def proof(F, s):
        parts = [p for x in s.items for p in x.args] if isinstance(s, LitSeq) else None
        if parts is None:
            return False
        parts = [("d", "int", num_of(S, p[2])) if p[0] == "d" else p for p in parts]
        if prove(F, L(eq(n))) and merged(parts) == [("s", "0")]:
            return True
        for k, G in branches(F, [[eq(d - 1)], [("ge", d - 2)]]):
            want = [("d", "int", n)] + ([("s", "/"), ("d", "int", d)] if k else [])
            if not same_parts(S, G, parts, want):
                return False
        return True

    def prepare(w):
        x = Fraction(w.rng.choice((0, 1, -1, 2, 3, -5, 7, 12)), w.rng.choice((1, 1, 2, 3, 10)))
        assign(w, n, x.numerator)
        assign(w, d, x.denominator)
    judge(S, r, what, outs, out, proof, lambda w: coef_text((None, None, int(w.num(n)), int(w.num(d)))), prepare)


def num_of(S, v):
    v = force(v, S.types)
    while isinstance(v, AdtV) and len(v.fields) == 1:
        v = force(v.fields[0], S.types)
    return v


def sup_digits(S, r):
    """the superscript function on each of its arguments: its digits, the recursive calls resolved by itself"""
    what = "the decimal digits of the number, as superscripts"
    fn = label(r)
    con, _ = superscripts(S)
    outs = S.explore(fn, con, root=r, tag="p13", args=[SymV(("in", "a0"), params(S, r)[0])])
    x = force(SymV(("in", "a0"), params(S, r)[0]), S.types)
    if not outs:
        return
    memo = {}

    def value(n, depth=0):
        if n in memo:
            return memo[n]
        w = W(random.Random(0), S.types)
        assign(w, x, n)
        for o in outs:
            try:
                if not hold_all(w, o.facts):
                    continue
                if o.kind != "ret":
                    return None
                parts = [p for t in w.seq(o.val) for p in t[1:]]
            except Reject:
                continue
            memo[n] = "".join(value(int(p[1]), depth + 1) or "?" if p[0] == "sup" and depth < 30 else written([p]) for p in parts)
            return memo[n]
        raise NoValue("no outcome")
    try:
        wrong = [n for n in range(256) if value(n) != sup(n)]
    except (NoValue, Undecided, RecursionError) as e:
        S.undecided(fn, what, "analysis: %s" % e)
        return
    if wrong:
        S.violate(fn, what, "the text for %d is %s" % (wrong[0], value(wrong[0])), {"n": wrong[0]})
    else:
        S.proved(fn, what)


def hold_all(w, F):
    return all(w.lit(l) for l in F.lits)


def p13(S):
    con, r = superscripts(S)
    if r is not None:
        sup_digits(S, r)
    mdeg_fmt(S, con)
    term_fmt(S, {**con, **printed(S, "MultiDegree")})
    rs = find(S, "Polynomial", "Display", "fmt")
    if len(rs) < 2:
        S.violate("Polynomial", "anchor", "polynomials over rationals and floats are not printed any more")
    for r in rs:
        poly_fmt(S, r, {**con, **printed(S, "MultiDegree", "Term", "Rational"), **gcd_contract(S)})
    rat_fmt(S, con)


CHECKS = {"P13": p13}
