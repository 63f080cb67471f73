"""C01-C09: integers, rationals and the numeric traits."""
from .common import *


# ------------------------------------------------------------------------------------- helpers
def unint(S, v):
    """the number held by an Integer"""
    v = force(v, S.types)
    if isinstance(v, AdtV):
        return unint(S, v.fields[0])
    if isinstance(v, Poly):
        return v
    raise Undecided("not an integer: %r" % (v,))


def rat(S, v):
    v = force(v, S.types)
    if isinstance(v, AdtV) and last(v.path) == "Rational":
        return unint(S, v.fields[0]), unint(S, v.fields[1])
    raise Undecided("not a rational: %r" % (v,))


def reduced_facts(n, d):
    return [("ge", d - 1), eq(gcd_term(n, d), ONE), ]


def gcd_contract(S, used=None):
    rs = find(S, "Integer", None, "gcd")
    out = {}

    def c(ex, ctx, fn, args):
        a, b = unint(S, args[0]), unint(S, args[1])
        if used is not None:
            used.add("gcd")
        return AdtV(integer_path(S), 0, (gcd_term(a, b),))
    for r in rs:
        out[r["key"]] = c
    rs = find(S, "Integer", None, "lcm")

    def cl(ex, ctx, fn, args):
        a, b = unint(S, args[0]), unint(S, args[1])
        if used is not None:
            used.add("lcm")
        if ctx.testl(("eq", a)) or ctx.testl(("eq", b)):
            return AdtV(integer_path(S), 0, (ZERO,))
        p = a * b
        p = p if ctx.testl(("ge", p)) else -p
        return AdtV(integer_path(S), 0, (p * inv_poly(gcd_term(a, b)),))
    for r in rs:
        out[r["key"]] = cl
    return out


def integer_path(S):
    return next(p for p in S.prog.adts if last(p) == "Integer")


def rational_ty(S):
    for i, t in enumerate(S.types.T):
        if t["k"] == "adt" and last(t["path"]) == "Rational":
            return i


def rat_inputs(S, r):
    """facts about the rational inputs of a function: lowest terms, positive denominator"""
    facts = Facts()
    ins = []
    for i, ty in enumerate(params(S, r)):
        t = S.types.T[ty]
        while t["k"] == "ref":
            ty = t["e"]
            t = S.types.T[ty]
        if t["k"] == "adt" and last(t["path"]) == "Rational":
            n, d = rat(S, SymV(("in", "a%d" % i), ty))
            facts = facts.add_all(reduced_facts(n, d))
            ins.append((n, d))
        elif t["k"] == "adt" and last(t["path"]) == "Integer":
            ins.append(unint(S, SymV(("in", "a%d" % i), ty)))
        elif t["k"] in ("int", "uint"):
            ins.append(force(SymV(("in", "a%d" % i), ty), S.types))
        else:
            ins.append(None)
    return facts, ins


def is_iter_op(S, r):
    return last(r.get("trait")) in ("Sum", "Product")


def runnable(S, r):
    """can the function be analysed on unknown arguments as it stands?"""
    for ty in params(S, r):
        t = S.types.T[ty]
        while t["k"] == "ref":
            t = S.types.T[t["e"]]
        if t["k"] == "param" or t["k"] == "adt" and last(t["path"]) in ("Formatter",):
            return False
    return True


# ----------------------------------------------------------------------- coprimality
def factors(p):
    """p as a product: (unit constant, [(atom, exponent)]) or None"""
    if len(p.t) == 1:
        m, c = p.t[0]
        return c, list(m)
    return None


def coprime(F, a, b, depth=0):
    """gcd(a, b) = 1 shown from the facts"""
    if depth > 6:
        return False
    g = gcd_term(a, b) if not neg_exps(a) and not neg_exps(b) else None
    if g is not None:
        if g.const() == 1:
            return True
        if g.const() is None and F.decide(eq(g, ONE)) is True:
            return True
    if a.const() in (1, -1) or b.const() in (1, -1):
        return True
    # A/g and B/g with g = gcd(A, B), up to signs
    for x, y in ((a, b),):
        gs = [z for z in (x.atoms() | y.atoms()) if z.kind == "gcd"]
        for z in gs:
            A, B = x * P(z), y * P(z)
            if neg_exps(A) or neg_exps(B):
                continue
            if gcd_term(A, B) == P(z):
                if F.decide(ne(A)) or F.decide(ne(B)) or F.decide(ne(P(z))) or F.decide(("ge", P(z) - 1)):
                    return True
                if any(F.decide(("ge", s)) for s in (A - 1, B - 1, -A - 1, -B - 1)):
                    return True
    # known signs: replace numbers known to be zero
    if F.decide(eq(a)) is True:
        return unit(F, b)
    if F.decide(eq(b)) is True:
        return unit(F, a)
    fa, fb = factors(a), factors(b)
    if fa and fb and (len(fa[1]) + len(fb[1]) > 2 or any(x.kind == "pow" for x, _ in fa[1] + fb[1])):
        if abs(fa[0]) != 1 or abs(fb[0]) != 1:
            return False
        if any(e < 0 for _, e in fa[1] + fb[1]):
            return False

        def base(x):
            return base_of(x)
        return all(coprime(F, base(x), base(y), depth + 1) for x, _ in fa[1] for y, _ in fb[1])
    return False


def unit(F, p):
    """p is 1 or -1"""
    if prove(F, L(eq(p, ONE))) or prove(F, L(eq(p, -ONE))):
        return True
    fs = factors(p)
    return fs is not None and abs(fs[0]) == 1 and all(a.kind == "pow" and unit(F, a.args[0]) for a, _ in fs[1])


def base_of(a):
    if a.kind == "pow":
        return a.args[0]
    return P(a)


def neg_exps(p):
    return any(e < 0 for m, _ in p.t for _, e in m)


def positive(F, p):
    """p >= 1 for an integer written with exact quotients by positive numbers"""
    q = clear_pos(F, p)
    return q is not None and (prove(F, L(("ge", q - 1))) or prod_positive(F, q))


def clear_pos(F, p):
    """p times positive factors, without negative exponents"""
    low = {}
    for m, _ in p.t:
        for a, e in m:
            if e < 0:
                low[a] = min(low.get(a, 0), e)
    for a, e in low.items():
        if not (a.sort in ("nat", "pos") or F.decide(("ge", P(a))) or e % 2 == 0):
            return None
        p = p * P(a) ** (-e)
    return p


def prod_positive(F, p):
    if len(p.t) != 1:
        return False
    m, c = p.t[0]
    s = 1 if c > 0 else -1
    # powers with a common exponent: the sign of the product of their bases
    exps = {}
    for a, e in m:
        if a.kind == "pow" and e > 0:
            exps.setdefault(a.args[1], []).append((a, e))
    skip = set()
    for x, as_ in exps.items():
        b = ONE
        for a, e in as_:
            b = b * a.args[0] ** e
        if prove(F, L(("ge", b - 1))):
            skip |= {a for a, _ in as_}
    for a, e in m:
        if a in skip:
            continue
        if e % 2 == 0 and F.decide(ne(P(a))):
            continue
        b = base_of(a)
        if F.decide(("ge", P(a) - 1)) or (a.kind == "pow" and prove(F, L(("ge", b - 1)))):
            continue
        if F.decide(("ge", -P(a) - 1)):
            s = -s if e % 2 else s
            continue
        if F.decide(("ge", P(a))) and F.decide(ne(P(a))):
            continue
        return False
    return s > 0


def check_reduced(S, fn, what, F, n, d):
    ok = False
    try:
        ok = positive(F, d) and coprime_by_cases(F, n, d)
    except (Undecided, RecursionError):
        pass
    if ok:
        S.proved(fn, what)
        return
    good = AND(L(("ge", d - 1)), L(eq(P_gcd(n, d), ONE)))
    w = None
    try:
        w = refute(F, good, S.types)
    except (Undecided, RecursionError):
        pass
    if w is not None:
        S.violate(fn, what, "returns %r/%r, which is not in lowest terms with positive denominator, on the path %r" % (n, d, F), w)
    else:
        S.undecided(fn, what, "lowest terms of %r/%r under %r neither shown nor refuted" % (n, d, F))


def P_gcd(n, d):
    """an uninterpreted gcd for refutation (numbers may contain exact quotients)"""
    return sym("gcd", (n, d), "nat")


def coprime_by_cases(F, n, d):
    if coprime(F, n, d):
        return True
    for x in (n,):
        fs = factors(x)
        if fs is None:
            continue
        for a, e in fs[1]:
            for lits in ():
                pass
    return False


# ------------------------------------------------------------------------------------- contracts
def integer_contracts(S):
    """what C01-C03 rely on: gcd and lcm (verified here as part of each property that uses them)"""
    verify_gcd(S)
    if find(S, "Integer", None, "lcm"):
        verify_lcm(S)


def verify_gcd(S):
    r = the(S, "Integer", None, "gcd")
    if r is None:
        return
    outs = S.explore(label(r), root=r)
    if outs is None:
        return
    a, b = (unint(S, SymV(("in", "a%d" % i), params(S, r)[i])) for i in range(2))
    G = gcd_term(a, b)
    for k, o in enumerate(outs):
        if o.kind == "panic":
            S.reach(label(r), "gcd never panics", o.facts, "panics: %s" % o.msg)
            continue
        v = unint(S, o.val)
        # exit value h with gcd(h, 0) = gcd(a, b), returned as |h|
        S.goal(label(r), "gcd(a,b) >= 0 and equals the gcd", o.facts, AND(L(eq(v, G)), L(("ge", v))))


def verify_lcm(S):
    r = the(S, "Integer", None, "lcm")
    if r is None:
        return
    outs = S.explore(label(r), gcd_contract(S), root=r, tag="lcm")
    if outs is None:
        return
    a, b = (unint(S, SymV(("in", "a%d" % i), params(S, r)[i])) for i in range(2))
    g = gcd_term(a, b)
    for o in outs:
        if o.kind == "panic":
            S.reach(label(r), "lcm never panics", o.facts, "panics: %s" % o.msg)
            continue
        v = unint(S, o.val)
        zero = OR(eq(a), eq(b))
        S.goal(label(r), "lcm is 0 when an operand is 0, else |a*b|/gcd(a,b)", o.facts,
               AND(OR(f_not(zero), L(eq(v))), OR(zero, AND(OR(eq(v * g, a * b), eq(v * g, -a * b)), L(("ge", clear_pos(o.facts, v) if clear_pos(o.facts, v) is not None else v))))))


# ------------------------------------------------------------------------------------- C01
def producers(S):
    """all functions of the crate that yield or update rationals: (root, how)"""
    for r in S.prog.roots:
        if r["kind"] not in ("fn", "const"):
            continue
        b = S.prog.body(r["key"])
        if b is None or r["name"] == "new_unchecked" and not r["pub"]:
            continue
        ret = tyname(S.types, b.locals[0])
        ps = [tyname(S.types, t) for t in (params(S, r) if r["kind"] == "fn" else [])]
        yields = "Rational" in ret
        upd = any(p == "&mut Rational" for p in ps)
        if not (yields or upd) or not (r["pub"] or r.get("trait")):
            continue
        if last(r.get("self_ty")) not in ("Rational", "Integer") and r.get("trait") is None and not any("Rational" in p for p in ps):
            continue
        yield r, yields, upd


def abstract_rationals(S):
    """contracts that treat a Rational as an element of the field it denotes (for iterator folds)"""
    def num(v):
        v = force(v, S.types)
        if isinstance(v, Poly):
            return v
        n, d = rat(S, v)
        return n * inv_poly(d)
    out = {}
    for tr, nm, f in (("Add", "add", lambda a, b: a + b), ("Sub", "sub", lambda a, b: a - b), ("Mul", "mul", lambda a, b: a * b)):
        for r in find(S, "Rational", tr, nm):
            out[r["key"]] = lambda ex, ctx, fn, args, f=f: f(num(args[0]), num(args[1]))
    for tr, nm, f in (("AddAssign", "add_assign", lambda a, b: a + b), ("MulAssign", "mul_assign", lambda a, b: a * b), ("SubAssign", "sub_assign", lambda a, b: a - b)):
        for r in find(S, "Rational", tr, nm):
            def c(ex, ctx, fn, args, f=f):
                ctx.store_at(args[0], f(num(ctx.load(args[0])), num(args[1])))
                return TupV(())
            out[r["key"]] = c
    return out, num


def fold_outcomes(S, r):
    """Sum / Product over an unknown list of rationals, on the denoted field elements"""
    fty = next((i for i, t in enumerate(S.types.T) if t["k"] == "param" and t["name"] == "F"), None)
    con, num = abstract_rationals(S)
    seq = SymSeq(("in", "it"), fty, P(atom("len", (("in", "it"),), "usize")))
    outs = S.explore(label(r), con, [IterV(Src("val", (seq,)))], {}, root=r, tag="fold")
    return outs, seq, num


def c01(S):
    integer_contracts(S)
    con = gcd_contract(S)
    for r, yields, upd in producers(S):
        fn = label(r)
        if is_iter_op(S, r):
            # built from zero, one and the verified operations only
            outs, seq, num = fold_outcomes(S, r)
            for o in outs or ():
                if o.kind == "ret" and isinstance(o.val, AdtV):
                    n, d = rat(S, o.val)
                    check_reduced(S, fn, "lowest terms (empty iterator)", o.facts, n, d)
                elif o.kind == "ret":
                    S.proved(fn, "folds the verified operations")
            continue
        if r["kind"] == "fn" and not runnable(S, r):
            continue
        facts, ins = rat_inputs(S, r) if r["kind"] == "fn" else (Facts(), [])
        outs = S.explore(fn, con, root=r, facts=facts, tag="red", **({"args": [], "store": {}} if r["kind"] == "const" else {}))
        for o in outs or ():
            if o.kind != "ret":
                continue
            vals = walk(S, o.val, "Rational") if yields else []
            for k, v in o.store.items():
                if k[0] == "A" and upd:
                    vals += walk(S, v, "Rational")
            for v in vals:
                n, d = rat(S, v)
                check_reduced(S, fn, "result in lowest terms, positive denominator", o.facts, n, d)
    # comparing equal: fields compared
    r = the(S, "Rational", "PartialEq", "eq", ["Rational"])
    if r is not None:
        facts, ins = rat_inputs(S, r)
        (n0, d0), (n1, d1) = ins[0], ins[1]
        for o in S.explore(label(r), root=r, facts=facts, tag="eq") or ():
            same = AND(eq(n0, n1), eq(d0, d1))
            truth(S, label(r), "equality of rationals is equality of numerator and denominator", o, same)


def truth(S, fn, what, o, expected):
    """the boolean result of outcome o is the formula `expected`"""
    if o.kind != "ret":
        S.reach(fn, what + " (no panic)", o.facts, "panics: %s" % o.msg)
        return
    v = o.val
    S.goal(fn, what, o.facts, AND(OR(f_not(v), expected), OR(v, f_not(expected))))


# ------------------------------------------------------------------------------------- C02, C03
def opspecs(S):
    """(root, spec) with spec(ins) = (N, D): the fraction N/D the operation denotes"""
    R = ["Rational"]
    out = []

    def two(tr, nm, f, assign=False):
        r = the(S, "Rational", tr, nm, R)
        if r:
            out.append((r, lambda i: f(i[0], i[1]), assign))
    add = lambda a, b: (a[0] * b[1] + b[0] * a[1], a[1] * b[1])
    sub_ = lambda a, b: (a[0] * b[1] - b[0] * a[1], a[1] * b[1])
    mul = lambda a, b: (a[0] * b[0], a[1] * b[1])
    div = lambda a, b: (a[0] * b[1], a[1] * b[0])
    for tr, nm, f in (("Add", "add", add), ("Sub", "sub", sub_), ("Mul", "mul", mul), ("Div", "div", div)):
        two(tr, nm, f)
        two(tr + "Assign", nm + "_assign", f, True)
    for tr, nm, f in (("Neg", "neg", lambda i: (-i[0][0], i[0][1])),):
        r = the(S, "Rational", tr, nm)
        if r:
            out.append((r, f, False))
    for nm, f in (("new", lambda i: (i[0], i[1])), ("new_i64", lambda i: (i[0], i[1])), ("new_int", lambda i: (i[0], ONE)),
                  ("recip", lambda i: (i[0][1], i[0][0])), ("pow", None), ("powi", None)):
        r = the(S, "Rational", None, nm)
        if r:
            out.append((r, f or "pow", False))
    for tr, nm, f in (("Field", "inv", lambda i: (i[0][1], i[0][0])), ("Field", "powi32", "pow")):
        r = the(S, "Rational", tr, nm)
        if r:
            out.append((r, f, False))
    r = the(S, "Rational", "From", "from", ["Integer"])
    if r:
        out.append((r, lambda i: (i[0], ONE), False))
    return out


def result(S, o, assign):
    if assign:
        return rat(S, o.store[("A", "a0")])
    return rat(S, o.val)


def pow_expected(F, n, d, e):
    """list of (case literals, N, D) for (n/d)^e"""
    yield [("ge", e)], power(n, e), power(d, e)
    yield [("ge", -e - 1)], power(d, -e), power(n, -e)


def c02(S):
    integer_contracts(S)
    con = gcd_contract(S)
    for r, spec, assign in opspecs(S):
        fn = label(r)
        facts, ins = rat_inputs(S, r)
        outs = S.explore(fn, con, root=r, facts=facts, tag="red")
        for o in outs or ():
            if o.kind != "ret":
                continue
            n, d = result(S, o, assign)
            if spec == "pow":
                (bn, bd), e = ins[0], ins[1]
                for cs, N, D in pow_expected(o.facts, bn, bd, e):
                    F = o.facts.add_all(cs)
                    if F is None:
                        continue
                    cross(S, fn, "denotes the power", F, n, d, N, D)
            else:
                N, D = spec(ins)
                cross(S, fn, "denotes the operation", o.facts, n, d, N, D)
    for tr, nm in (("Sum", "sum"), ("Product", "product")):
        r = the(S, "Rational", tr, nm)
        if r is None:
            continue
        outs, seq, num = fold_outcomes(S, r)
        i = atom("tmpbv", ("f",), "usize")
        x = force(SymV(("el", seq.key, P(i)), seq.ety), S.types)
        exp = Sum(0, seq.n, i, x) if tr == "Sum" else Prod(0, seq.n, i, x)
        for o in outs or ():
            if o.kind != "ret":
                S.reach(label(r), "no panic", o.facts, o.msg)
                continue
            v = num(o.val)
            S.goal(label(r), "denotes the %s of all items" % tr.lower(), o.facts, fold_eq(o.facts, v, exp, seq.n, tr))


def fold_eq(F, v, exp, n, tr):
    # split the first element off, as a fold starting from it does
    v, exp = shift0(v), shift0(exp)
    f = [L(("req", v - exp))]
    a = exp.single()
    if a is not None and a.kind in ("sum", "prod"):
        lo, hi, bv, body = a.args
        first = subst(body, {bv: lo})
        rest = shift0(make(a.kind, (lo + 1, hi, bv, body), a.sort))
        f.append(AND(L(("ge", hi - lo - 1)), L(("req", v - (first + rest if a.kind == "sum" else first * rest)))))
        f.append(AND(L(eq(hi, lo)), L(("req", v - (ZERO if a.kind == "sum" else ONE)))))
    return OR(*f)


def cross(S, fn, what, F, n, d, N, D):
    """n/d = N/D, by cross multiplication"""
    p = clear_inv(n * D - N * d)
    S.goal(fn, what, F, L(("eq", p)), " (computes %r / %r)" % (n, d))


def c03(S):
    integer_contracts(S)
    con = gcd_contract(S)
    for r, spec, assign in opspecs(S):
        fn = label(r)
        facts, ins = rat_inputs(S, r)
        outs = S.explore(fn, con, root=r, facts=facts, tag="red")
        for o in outs or ():
            if o.kind == "ret":
                n, d = result(S, o, assign)
                q = clear_pos(o.facts, d)
                # returning means the documented denominator is not zero, and so is the result's
                if spec == "pow":
                    (bn, bd), e = ins[0], ins[1]
                    need = OR(("ge", e), ne(bn))
                else:
                    need = L(ne(spec(ins)[1]))
                if q is not None and prod_positive(o.facts, q):
                    S.proved(fn, "denominator of the result is not zero")
                else:
                    S.goal(fn, "denominator of the result is not zero", o.facts, L(ne(q if q is not None else d)))
                S.goal(fn, "returns only if no zero denominator is needed", o.facts, need)
            else:
                if spec == "pow":
                    (bn, bd), e = ins[0], ins[1]
                    bad = AND(("ge", -e - 1), eq(bn))
                else:
                    bad = L(eq(spec(ins)[1]))
                S.goal(fn, "panics only if a zero denominator is needed", o.facts, bad, " (panics: %s)" % o.msg)


# ------------------------------------------------------------------------------------- C04
def c04(S):
    for tr, nm in (("Ord", "cmp"), ("PartialOrd", "partial_cmp")):
        r = the(S, "Rational", tr, nm)
        if r is None:
            continue
        fn = label(r)
        facts, ins = rat_inputs(S, r)
        (n0, d0), (n1, d1) = ins[0], ins[1]
        diff = n0 * d1 - n1 * d0
        want = [L(("ge", -diff - 1)), L(eq(diff)), L(("ge", diff - 1))]
        for o in S.explore(fn, gcd_contract(S), root=r, facts=facts, tag="cmp") or ():
            if o.kind != "ret":
                S.reach(fn, "never panics", o.facts, o.msg)
                continue
            v = o.val
            if nm == "partial_cmp":
                v = force(v, S.types)
                if not isinstance(v, AdtV):
                    S.undecided(fn, "always Some", "result %r" % (v,))
                    continue
                if v.variant == 0:
                    S.reach(fn, "the partial comparison never fails", o.facts, "returns None")
                    continue
                v = v.fields[0]
            if not isinstance(v, AdtV):
                S.undecided(fn, "ordering", "result %r" % (v,))
                continue
            S.goal(fn, "the comparison is the numeric order", o.facts, want[v.variant])
    # overridden comparison operators
    for tr, nm, w in (("PartialOrd", "lt", 0), ("PartialOrd", "le", 1), ("PartialOrd", "gt", 2), ("PartialOrd", "ge", 3)):
        for r in find(S, "Rational", tr, nm):
            facts, ins = rat_inputs(S, r)
            (n0, d0), (n1, d1) = ins[0], ins[1]
            diff = n0 * d1 - n1 * d0
            f = [L(("ge", -diff - 1)), L(("ge", -diff)), L(("ge", diff - 1)), L(("ge", diff))][w]
            for o in S.explore(label(r), root=r, facts=facts, tag="cmp") or ():
                truth(S, label(r), "overridden comparison operator is the numeric order", o, f)
    for nm in ("max", "min"):
        for r in find(S, "Rational", "Ord", nm):
            facts, ins = rat_inputs(S, r)
            (n0, d0), (n1, d1) = ins[0], ins[1]
            for o in S.explore(label(r), root=r, facts=facts, tag="cmp") or ():
                if o.kind == "ret":
                    n, d = rat(S, o.val)
                    s = 1 if nm == "max" else -1
                    S.goal(label(r), "overridden %s" % nm, o.facts,
                           AND(("ge", s * (n * d0 - n0 * d)), ("ge", s * (n * d1 - n1 * d)), OR(AND(eq(n, n0), eq(d, d0)), AND(eq(n, n1), eq(d, d1)))))


# ------------------------------------------------------------------------------------- C05
NUMTYPES = "usize u8 u16 u32 u64 u128 isize i8 i16 i32 i64 i128 f32 f64".split() + ["Integer", "Rational"]


def c05(S):
    for ty in NUMTYPES:
        for tr, cn, tn, val in (("Zero", "ZERO", "is_zero", 0), ("One", "ONE", "is_one", 1)):
            c, t = the(S, ty, tr, cn), the(S, ty, tr, tn)
            if c is not None:
                for o in S.explore(label(c), None, [], {}, root=c) or ():
                    if o.kind != "ret":
                        S.reach(label(c), "constant", o.facts, o.msg)
                        continue
                    if ty == "Rational":
                        n, d = rat(S, o.val)
                        S.goal(label(c), "the constant is %d/1" % val, o.facts, AND(eq(n, P(val)), eq(d, ONE)))
                    else:
                        S.goal(label(c), "the constant is %d" % val, o.facts, isnum(S, o.val, val, ty))
            if t is not None:
                facts, ins = rat_inputs(S, t)
                x = force(SymV(("in", "a0"), S.types.T[params(S, t)[0]]["e"]), S.types)
                if ty == "Rational":
                    n, d = rat(S, x)
                    exp = L(eq(n)) if val == 0 else AND(eq(n, d))
                else:
                    exp = isnum(S, x, val, ty)
                for o in S.explore(label(t), None, root=t, facts=facts) or ():
                    truth(S, label(t), "accepts exactly the values equal to %d" % val, o, exp)


def isnum(S, v, val, ty):
    v = force(v, S.types)
    if ty == "Integer":
        v = unint(S, v)
    return L(("req" if ty in ("f32", "f64") else "eq", v - val))


# ------------------------------------------------------------------------------------- C06
def c06(S):
    verify_gcd(S)
    verify_lcm(S)
    con = gcd_contract(S)

    def each(ty, tr, nm, f, args=None, facts=()):
        r = the(S, ty, tr, nm, args)
        if r is None:
            return
        ins = []
        for i, t in enumerate(params(S, r)):
            tt = S.types.T[t]
            while tt["k"] == "ref":
                t = tt["e"]
                tt = S.types.T[t]
            ins.append(unint(S, SymV(("in", "a%d" % i), t)))
        F0 = Facts().add_all(g for g in [h(ins) for h in facts])
        for o in S.explore(label(r), con, root=r, facts=F0, tag="c06") or ():
            f(r, o, ins)

    def value(f, what, nonzero_div=False):
        def g(r, o, ins):
            if o.kind != "ret":
                S.goal(label(r), what + " (panics only on a zero divisor)", o.facts, L(eq(ins[1])) if nonzero_div else False, " (panics: %s)" % o.msg)
                return
            v = unint(S, o.val)
            S.goal(label(r), what, o.facts, L(eq(v, f(ins))) if not callable(getattr(f, "formula", None)) else f.formula(v, ins))
        return g
    I = ["Integer"]
    each("Integer", "Add", "add", value(lambda i: i[0] + i[1], "sum"), I)
    each("Integer", "Sub", "sub", value(lambda i: i[0] - i[1], "difference"), I)
    each("Integer", "Mul", "mul", value(lambda i: i[0] * i[1], "product"), I)
    each("Integer", "Div", "div", value(lambda i: quot(i[0], i[1]), "quotient", True), I)
    each("Integer", "Rem", "rem", value(lambda i: rem(i[0], i[1]), "remainder", True), I)
    each("Integer", "Neg", "neg", value(lambda i: -i[0], "negation"))
    each("Integer", "From", "from", value(lambda i: i[0], "conversion"), ["i64"])

    def sgn(r, o, ins):
        if o.kind != "ret":
            return S.reach(label(r), "no panic", o.facts, o.msg)
        v, x = unint(S, o.val), ins[0]
        S.goal(label(r), "sign", o.facts, AND(OR(("ge", -x), eq(v, ONE)), OR(("ge", x), eq(v, -ONE)), OR(ne(x), eq(v))))
    each("Integer", None, "sgn", sgn)

    def absv(r, o, ins):
        if o.kind != "ret":
            return S.reach(label(r), "no panic", o.facts, o.msg)
        v, x = unint(S, o.val), ins[0]
        S.goal(label(r), "absolute value", o.facts, AND(("ge", v), OR(eq(v, x), eq(v, -x))))
    each("Integer", None, "abs", absv)
    each("Integer", None, "is_pos", lambda r, o, i: truth(S, label(r), "positive exactly when > 0", o, L(("ge", i[0] - 1))))
    each("Integer", None, "is_neg", lambda r, o, i: truth(S, label(r), "negative exactly when < 0", o, L(("ge", -i[0] - 1))))
    # powers: for exponents that fit the machine type used (0 <= exp < 2^32)
    each("Integer", None, "pow", value(lambda i: power(i[0], i[1]), "power"), None,
         [lambda i: ("ge", i[1]), lambda i: ("ge", P(2 ** 32 - 1) - i[1])])
    for nm, w in (("cmp", 0), ("partial_cmp", 1)):
        r = the(S, "Integer", "Ord" if nm == "cmp" else "PartialOrd", nm)
        if r is None:
            continue
        a, b = (unint(S, SymV(("in", "a%d" % i), S.types.T[params(S, r)[i]]["e"])) for i in range(2))
        want = [L(("ge", b - a - 1)), L(eq(a, b)), L(("ge", a - b - 1))]
        for o in S.explore(label(r), root=r) or ():
            v = force(o.val, S.types) if o.kind == "ret" else None
            if o.kind == "ret" and nm == "partial_cmp" and isinstance(v, AdtV):
                if v.variant == 0:
                    S.reach(label(r), "never None", o.facts, "returns None")
                    continue
                v = v.fields[0]
            if isinstance(v, AdtV):
                S.goal(label(r), "order of integers", o.facts, want[v.variant])


# ------------------------------------------------------------------------------------- C07
def c07(S):
    integer_contracts(S)
    con = gcd_contract(S)
    for ty in ("f32", "f64"):
        r = the(S, ty, "Field", "inv")
        x = None
        if r is not None:
            x = force(SymV(("in", "a0"), params(S, r)[0]), S.types)
            for o in S.explore(label(r), root=r, facts=Facts().add(("rne", x))) or ():
                if o.kind != "ret":
                    S.reach(label(r), "inverse of a nonzero float", o.facts, o.msg)
                else:
                    S.goal(label(r), "inverse is the reciprocal", o.facts, L(req(o.val * x, ONE)) if isinstance(o.val, Poly) else False)
        r = the(S, ty, "Field", "powi32")
        if r is not None:
            x = force(SymV(("in", "a0"), S.types.T[params(S, r)[0]]["e"]), S.types)
            e = force(SymV(("in", "a1"), params(S, r)[1]), S.types)
            for o in S.explore(label(r), root=r) or ():
                if o.kind != "ret":
                    S.reach(label(r), "power never panics", o.facts, o.msg)
                    continue
                fpow(S, label(r), o, x, e)
    # rationals: same specification as C02 on the Field methods
    for r, spec, assign in opspecs(S):
        if last(r.get("trait")) != "Field" and r["name"] not in ("pow", "powi", "recip"):
            continue
        fn = label(r)
        facts, ins = rat_inputs(S, r)
        for o in S.explore(fn, con, root=r, facts=facts, tag="red") or ():
            if o.kind != "ret":
                # only for zero
                n = ins[0][0]
                S.goal(fn, "panics only for zero", o.facts, L(eq(n)), " (panics: %s)" % o.msg)
                continue
            n, d = result(S, o, assign)
            if spec == "pow":
                (bn, bd), e = ins[0], ins[1]
                for cs, N, D in pow_expected(o.facts, bn, bd, e):
                    F = o.facts.add_all(cs)
                    if F is not None:
                        cross(S, fn, "integer power", F, n, d, N, D)
            else:
                N, D = spec(ins)
                cross(S, fn, "reciprocal", o.facts, n, d, N, D)


def fpow(S, fn, o, x, e):
    """the float power: the machine's powi on the same base and exponent, or the product spelt out"""
    v = o.val
    if not isinstance(v, Poly):
        return S.undecided(fn, "power", repr(v))
    F = o.facts.add(("ge", e))
    if F is not None:
        S.goal(fn, "power with exponent >= 0", F, L(req(v, power(x, e))))
    F = o.facts.add_all([("ge", -e - 1), ("rne", x)])
    if F is not None and F.decide(("req", x)) is not True and ("eq", x) not in F.lits:
        S.goal(fn, "power with negative exponent", F, L(req(v * power(x, -e), ONE)))


# ------------------------------------------------------------------------------------- C09
def c09(S):
    r = the(S, "Rational", "EpsilonEquality", "epsilon_equals")
    if r is not None:
        facts, ins = rat_inputs(S, r)
        (n0, d0), (n1, d1) = ins[0], ins[1]
        for o in S.explore(label(r), gcd_contract(S), root=r, facts=facts, tag="eps") or ():
            truth(S, label(r), "approximate equality of rationals is equality", o, L(eq(n0 * d1, n1 * d0)) if False else AND(eq(n0, n1), eq(d0, d1)))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07}
