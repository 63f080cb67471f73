"""L01-L06: matrices.  The entries of a matrix are a row-major sequence; every statement about them is
an equation for the entry at row r and column c, with r and c arbitrary."""
from .common import *
from .mdeg import settle

NAT = "usize"


# ------------------------------------------------------------------------------------- helpers
class M:
    """a matrix value: entries, rows, columns"""

    def __init__(self, S, v):
        v = force(v, S.types)
        if not (isinstance(v, AdtV) and last(v.path) == "Mat"):
            raise Undecided("not a matrix: %r" % (v,))
        f = {n: x for n, x in zip(field_names(S, v.path), v.fields)}
        self.seq, self.R, self.C = force(f["entries"], S.types), force(f["rows"], S.types), force(f["cols"], S.types)
        if not (isinstance(self.seq, Seq) and isinstance(self.R, Poly) and isinstance(self.C, Poly)):
            raise Undecided("matrix fields %r" % (v,))
        self.S = S

    def at(self, r, c, F=None):
        return pure_get(self.seq, P(r) * self.C + P(c), F if F is not None else Facts(), self.S.types)

    def shape_fact(self):
        return eq(self.seq.n, self.R * self.C)


def field_names(S, path):
    return [f["name"] for f in S.prog.adts[path]["variants"][0]["fields"]]


def is_mat(S, ty):
    return tyname(S.types, ty).replace("&", "").replace("mut ", "") == "Mat"


def wmat(w, m):
    """the matrix under a valuation: (rows, cols, entries), entries None when there are not rows*cols"""
    R, C = int(w.num(m.R)), int(w.num(m.C))
    e = list(w.seq(m.seq))
    return R, C, e


def rows_of(t):
    R, C, e = t
    return [[e[r * C + c] for c in range(C)] for r in range(R)]


def build(R, C, f):
    return (R, C, [f(r, c) for r in range(R) for c in range(C)])


def shaped(S, v, depth=0):
    """the input v with the invariant of its matrices built in: rows*cols entries"""
    if depth > 4:
        return v
    v = force(v, S.types) if isinstance(v, SymV) else v
    if isinstance(v, AdtV):
        if last(v.path) == "Mat":
            names = field_names(S, v.path)
            f = dict(zip(names, v.fields))
            e = force(f["entries"], S.types)
            n = force(f["rows"], S.types) * force(f["cols"], S.types)
            if isinstance(e, SymSeq):
                f["entries"] = SymSeq(e.key, e.ety, n)
            return AdtV(v.path, v.variant, [f[k] for k in names])
        return AdtV(v.path, v.variant, [shaped(S, x, depth + 1) for x in v.fields])
    return v


def put_inputs(S, r):
    """explicit arguments with well-formed matrices: (args, store)"""
    args, store, types = [], {}, {}

    def unknown(nm, ty, key):
        t = S.types.T[ty]
        if t["k"] == "ref":
            root = ("A", nm)
            types[root] = t["e"]
            store[root] = unknown(nm + "*" if root in store else nm, t["e"], key)
            return RefV(root)
        v = SymV(key, ty)
        w = force(v, S.types)
        if isinstance(w, AdtV) and ty_has(S, ty, "Mat"):
            w = shaped(S, w)
            fs = list(w.fields)
            for k, x in enumerate(fs):
                if isinstance(x, SymV) and S.types.T[x.ty]["k"] == "ref" and ty_has(S, x.ty, "Mat"):
                    root = ("A", "%s_%d" % (nm, k))
                    types[root] = S.types.T[x.ty]["e"]
                    store[root] = shaped(S, SymV(x.key, S.types.T[x.ty]["e"]))
                    fs[k] = RefV(root)
            return AdtV(w.path, w.variant, fs)
        return v
    for i, ty in enumerate(params(S, r)):
        args.append(unknown("a%d" % i, ty, ("in", "a%d" % i)))
    return args, store, types


def mat_inputs(S, r, F=None):
    """facts: matrices among the inputs have rows*cols entries; the inputs themselves"""
    F = F or Facts()
    ins = []
    args, store, types = put_inputs(S, r)
    for i, ty in enumerate(params(S, r)):
        t = S.types.T[ty]
        a = args[i]
        while t["k"] == "ref":
            ty = t["e"]
            t = S.types.T[ty]
            a = store[a.root] if isinstance(a, RefV) else a
        if t["k"] == "adt" and last(t["path"]) == "Mat":
            ins.append(M(S, a))
        elif t["k"] == "slice" and is_mat(S, t["e"]):
            s = force(a, S.types)
            k = atom("q", ("m", i), NAT)
            m = M(S, pure_get(s, P(k), F, S.types))
            F = F.add_forall([(k, ZERO, s.n)], [[m.shape_fact()]])
            ins.append(s)
        else:
            x = force(a, S.types)
            ins.append(x)
    S.inargs = (args, store, types)
    return F, ins


def mexplore(S, r, F, then=None, contracts=None, opts=None, budget=None):
    """outcomes of r on the inputs made by the last mat_inputs"""
    args, store, types = S.inargs
    return S.explore(label(r), root=r, facts=F, tag=None, args=list(args), store=dict(store), then=then, contracts=contracts, opts=opts, budget=budget,
                     setup=lambda ex: ex.roottype.update(types))


def box(x, C, r, c):
    """x with the row and column of position r*C+c simplified"""
    p = P(r) * C + P(c)
    for _ in range(3):
        m = {}
        for a in fv(x):
            if a.kind in ("quot", "rem") and a.args[0] == p and a.args[1] == C:
                m[a] = P(r) if a.kind == "quot" else P(c)
        if not m:
            return x
        x = Subst(m).any(x)
    return x


def cases_of(F, spec, k):
    """prove k(G, value) in every case of the specification [(literals, value)]"""
    for ls, v in spec:
        G = F.add_all(ls)
        if G is None or contradictory(G):
            continue
        if not k(G, v):
            return False
    return True


def splits(F, pairs, k, depth=0):
    """prove k(F) by cases on the order of each pair of numbers"""
    if not pairs:
        return k(F)
    a, b = pairs[0]
    for l in (eq(a, b), gt(a, b), lt(a, b)):
        G = F.add(l)
        if G is None or contradictory(G):
            continue
        if l[0] == "eq":
            G = unify_eq(G, a, b)
        if G is not None and not splits(G, pairs[1:], k, depth + 1):
            return False
    return True


def unify_eq(F, a, b):
    return F


def entries(S, fn, what, F, m, spec, wspec, vals, on=(), shape=None):
    """the entry of m at row r and column c is spec(r, c) = [(literals, value)]"""
    r, c = P(var("r")), ZERO if m.C.const() == 1 else P(var("c"))

    def one(G, want):
        got = box(m.at(r, c, G), m.C, r, c)
        return prove(G, L(req(got, want)))
    try:
        G = F.add_all([("ge", r), ("ge", m.R - 1 - r), ("ge", c), ("ge", m.C - 1 - c)])
        ok = G is None or contradictory(G) or splits(G, [(r if a == "r" else c, P(b)) for a, b in on],
                                                     lambda H: cases_of(H, spec(r, c), one))
    except (Undecided, RecursionError):
        ok = False

    def pred(w):
        return wmat(w, m) == wspec(w)
    settle(S, fn, what, F, ok, (m.seq, m.R, m.C) + tuple(vals), pred, "returns other entries")


def shape(S, fn, what, F, m, R, C):
    S.goal(fn, what, F, AND(eq(m.R, R), eq(m.C, C), eq(m.seq.n, m.R * m.C)))


def all_mats(S, v, out=None):
    """matrices inside a value, at any depth (an arbitrary element of a sequence)"""
    out = [] if out is None else out
    v = force(v, S.types)
    if isinstance(v, AdtV):
        if last(v.path) == "Mat":
            out.append((Facts(), v))
        else:
            for x in v.fields:
                all_mats(S, x, out)
    elif isinstance(v, TupV):
        for x in v.fields:
            all_mats(S, x, out)
    elif isinstance(v, LitSeq):
        for x in v.items:
            all_mats(S, x, out)
    return out


class Op:
    """a matrix operation with its specification"""

    def __init__(self, name, R=None, C=None, spec=None, wspec=None, pre=None, trait=None, args=None, on=None, ty="Mat", mut=False, what="documented entries", bad=None):
        self.__dict__.update(locals())


def inp(i):
    return lambda x: x[i]


def z1(cond_lits, one=ONE, other=ZERO):
    """value 1 when the literals hold, else 0"""
    out = [(tuple(cond_lits), one)]
    pre = []
    for l in cond_lits:
        out.append((tuple(pre) + (neg(l),), other))
        pre.append(l)
    return out


def run_op(S, op, r, then=None, extra=(), tag=""):
    """outcomes of the operation on matrices of the right sizes, under its precondition"""
    F, x = mat_inputs(S, r)
    if op.pre:
        for l in op.pre(x):
            F = F.add(l) if l[0] != "forall" else F.add_forall(*l[1:])
    for l in extra:
        F = F.add(l) if F is not None else None
    fn = label(r)
    return fn, F, x, mexplore(S, r, F, then=then) or ()


def result_mat(S, o):
    """the matrix returned, or the updated one"""
    v = force(o.val, S.types) if not isinstance(o.val, (tuple, RefV)) else o.val
    if isinstance(v, AdtV) and last(v.path) == "Mat":
        return M(S, v)
    return M(S, o.store[("A", "a0")])


def wint(w, p):
    return int(w.num(p))


def num(w, x):
    return w.num(x)


def vs(S, seq, i, F=None):
    return M(S, pure_get(seq, P(i), F or Facts(), S.types))


def constructors(S):
    """(root, Op) of the constructors with documented entries"""
    def diag(r, c):
        return z1([eq(r, c)])
    ops = [
        Op("identity", inp(0), inp(0), lambda x: lambda r, c: diag(r, c), lambda w, x: build(wint(w, x[0]), wint(w, x[0]), lambda r, c: int(r == c)), what="identity matrix"),
        Op("zero", inp(0), inp(1), lambda x: lambda r, c: [((), ZERO)], lambda w, x: build(wint(w, x[0]), wint(w, x[1]), lambda r, c: 0), what="zero matrix"),
        Op("e", inp(1), lambda x: ONE, lambda x: lambda r, c: z1([eq(r, x[0])]), lambda w, x: build(wint(w, x[1]), 1, lambda r, c: int(r == wint(w, x[0]))), what="standard basis vector"),
        Op("scale_mat", inp(0), inp(0), lambda x: lambda r, c: [((eq(r, c), eq(r, x[1])), x[2]), ((eq(r, c), ne(r, x[1])), ONE), ((ne(r, c),), ZERO)],
           lambda w, x: build(wint(w, x[0]), wint(w, x[0]), lambda r, c: 0 if r != c else num(w, x[2]) if r == wint(w, x[1]) else 1), what="row scaling matrix"),
        Op("permutation", inp(0), inp(0), lambda x: lambda r, c: [
            ((eq(r, x[1]), eq(c, x[2])), ONE), ((eq(r, x[2]), eq(c, x[1])), ONE), ((eq(r, x[1]), ne(c, x[2]), ne(r, x[2])), ZERO), ((eq(r, x[1]), eq(r, x[2]), ne(c, x[2])), ZERO),
            ((eq(r, x[2]), ne(c, x[1])), ZERO), ((ne(r, x[1]), ne(r, x[2]), eq(r, c)), ONE), ((ne(r, x[1]), ne(r, x[2]), ne(r, c)), ZERO)],
           lambda w, x: perm_w(w, x), what="row exchange matrix",
           pre=lambda x: [("ge", x[0] - 1 - x[1]), ("ge", x[0] - 1 - x[2])]),
        Op("replacement", inp(0), inp(0), lambda x: lambda r, c: [((eq(r, x[2]), eq(c, x[1])), x[3]), ((eq(r, x[2]), ne(c, x[1]), eq(r, c)), ONE), ((ne(r, x[2]), eq(r, c)), ONE),
                                                                 ((eq(r, x[2]), ne(c, x[1]), ne(r, c)), ZERO), ((ne(r, x[2]), ne(r, c)), ZERO)],
           lambda w, x: build(wint(w, x[0]), wint(w, x[0]), lambda r, c: num(w, x[3]) if (c, r) == (wint(w, x[1]), wint(w, x[2])) else int(r == c)), what="row replacement matrix",
           pre=lambda x: [ne(x[1], x[2])]),
        Op("permutation_from_vec", lambda x: x[0].n, lambda x: x[0].n, lambda x: lambda r, c: z1([eq(pure_get(x[0], P(r), Facts(), S.types), c)]),
           lambda w, x: build(len(w.seq(x[0])), len(w.seq(x[0])), lambda r, c: int(w.seq(x[0])[r] == c)), what="permutation matrix"),
        Op("transpose", lambda x: x[0].C, lambda x: x[0].R, lambda x: lambda r, c: [((), x[0].at(c, r))],
           lambda w, x: (lambda t: build(t[1], t[0], lambda r, c: t[2][c * t[1] + r]))(wmat(w, x[0])), what="transpose"),
        Op("from_col_vectors", lambda x: vs(S, x[0], 0).R, lambda x: x[0].n, lambda x: lambda r, c: [((), vs(S, x[0], c).at(r, 0))],
           lambda w, x: cols_w(S, w, x[0], False), what="columns are the given vectors",
           pre=lambda x: [("ge", x[0].n - 1)] + [col_vectors(S, x[0])]),
        Op("from_row_vectors", lambda x: x[0].n, lambda x: vs(S, x[0], 0).R, lambda x: lambda r, c: [((), vs(S, x[0], r).at(c, 0))],
           lambda w, x: cols_w(S, w, x[0], True), what="rows are the given vectors",
           pre=lambda x: [("ge", x[0].n - 1)] + [col_vectors(S, x[0])]),
    ]
    return ops


def col_vectors(S, s):
    """all elements are column vectors as long as the first"""
    k = atom("q", ("cv", 0), NAT)
    m = vs(S, s, P(k))
    return ("forall", [(k, ZERO, s.n)], [[eq(m.C, ONE), eq(m.R, vs(S, s, 0).R), eq(m.seq.n, vs(S, s, 0).R)]])


def cols_w(S, w, s, rows):
    n = int(w.num(s.n))
    ms = [wmat(w, vs(S, s, i)) for i in range(n)]
    R = ms[0][0]
    return build(n, R, lambda r, c: ms[r][2][c]) if rows else build(R, n, lambda r, c: ms[c][2][r])


def perm_w(w, x):
    n, s, t = wint(w, x[0]), wint(w, x[1]), wint(w, x[2])
    p = list(range(n))
    p[s], p[t] = p[t], p[s]
    return build(n, n, lambda r, c: int(p[r] == c))


def row_ops(S):
    def inrow(*ks):
        return lambda x: [("ge", x[0].R - 1 - x[k]) for k in ks]

    def upd(w, x, f):
        R, C, e = wmat(w, x[0])
        g = rows_of((R, C, e))
        h = [list(t) for t in g]
        f(g, h, C)
        return R, C, [v for t in h for v in t]

    def scale_row(w, x):
        i = wint(w, x[1])

        def f(g, h, C):
            h[i] = [num(w, x[2]) * v for v in g[i]]
        return upd(w, x, f)

    def permute(w, x):
        i, j = wint(w, x[1]), wint(w, x[2])

        def f(g, h, C):
            h[i], h[j] = g[j], g[i]
        return upd(w, x, f)

    def replace(w, x):
        i, j = wint(w, x[1]), wint(w, x[2])

        def f(g, h, C):
            h[j] = [a + b * num(w, x[3]) for a, b in zip(g[j], g[i])]
        return upd(w, x, f)
    same = [lambda x: x[0].R, lambda x: x[0].C]
    return [
        Op("scale_row", *same, lambda x: lambda r, c: [((eq(r, x[1]),), x[2] * x[0].at(r, c)), ((ne(r, x[1]),), x[0].at(r, c))], scale_row,
           pre=inrow(1), on=lambda x: [("r", x[1])], mut=True, what="scales exactly the named row"),
        Op("permute_rows", *same, lambda x: lambda r, c: [((eq(r, x[1]),), x[0].at(x[2], c)), ((ne(r, x[1]), eq(r, x[2])), x[0].at(x[1], c)), ((ne(r, x[1]), ne(r, x[2])), x[0].at(r, c))], permute,
           pre=inrow(1, 2), on=lambda x: [("r", x[1]), ("r", x[2])], mut=True, what="exchanges exactly the named rows"),
        Op("replace_row", *same, lambda x: lambda r, c: [((eq(r, x[2]),), x[0].at(r, c) + x[0].at(x[1], c) * x[3]), ((ne(r, x[2]),), x[0].at(r, c))], replace,
           pre=inrow(1, 2), on=lambda x: [("r", x[2]), ("r", x[1])], mut=True, what="adds the multiple of the source row to the target row only"),
        Op("scale", *same, lambda x: lambda r, c: [((), x[0].at(r, c) * x[1])], lambda w, x: (lambda t: (t[0], t[1], [v * num(w, x[1]) for v in t[2]]))(wmat(w, x[0])),
           mut=True, what="scales every entry"),
    ]


def check_op(S, op, rs):
    for r in rs:
        if r is None:
            continue
        try:
            fn, F, x, outs = run_op(S, op, r)
        except (Undecided, KeyError, AttributeError, TypeError, IndexError) as e:
            S.undecided(label(r), op.what, "%s" % e)
            continue
        for o in outs:
            if o.kind != "ret":
                S.reach(fn, op.what + ": never panics for valid arguments", o.facts, o.msg)
                continue
            try:
                m = result_mat(S, o)
                shape(S, fn, "documented shape", o.facts, m, op.R(x), op.C(x))
                vals = [v if not isinstance(v, M) else v.seq for v in x]
                entries(S, fn, op.what, o.facts, m, op.spec(x), lambda w: op.wspec(w, x), vals, on=op.on(x) if op.on else ())
            except (Undecided, KeyError, AttributeError, TypeError, IndexError) as e:
                S.undecided(fn, op.what, str(e)[:200])


def binary_ops(S):
    """operators and norms: (ty, trait, name, trait args filter) with their specification"""
    def prod(x):
        k = atom("q", ("k", 2), NAT)
        return lambda r, c: [((), Sum(ZERO, x[0].C, k, x[0].at(r, P(k)) * x[1].at(P(k), c)))]

    def wprod(w, x):
        a, b = wmat(w, x[0]), wmat(w, x[1])
        return build(a[0], b[1], lambda r, c: sum(a[2][r * a[1] + k] * b[2][k * b[1] + c] for k in range(a[1])))
    return [
        ("Add", "add", ("Mat", "&Mat"), Op("add", lambda x: x[0].R, lambda x: x[0].C, lambda x: lambda r, c: [((), x[0].at(r, c) + x[1].at(r, c))],
                                           lambda w, x: (lambda a, b: (a[0], a[1], [p + q for p, q in zip(a[2], b[2])]))(wmat(w, x[0]), wmat(w, x[1])),
                                           pre=lambda x: [eq(x[0].R, x[1].R), eq(x[0].C, x[1].C)], what="adds corresponding entries")),
        ("Mul", "mul", ("Mat", "&Mat"), Op("mul", lambda x: x[0].R, lambda x: x[1].C, prod, wprod, pre=lambda x: [eq(x[0].C, x[1].R)], what="row-by-column product")),
        ("Mul", "mul", ("F",), Op("mul", lambda x: x[0].R, lambda x: x[0].C, lambda x: lambda r, c: [((), x[0].at(r, c) * x[1])],
                                  lambda w, x: (lambda a: (a[0], a[1], [v * num(w, x[1]) for v in a[2]]))(wmat(w, x[0])), what="scales every entry")),
        ("MulAssign", "mul_assign", ("F",), Op("mul_assign", lambda x: x[0].R, lambda x: x[0].C, lambda x: lambda r, c: [((), x[0].at(r, c) * x[1])],
                                               lambda w, x: (lambda a: (a[0], a[1], [v * num(w, x[1]) for v in a[2]]))(wmat(w, x[0])), mut=True, what="scales every entry in place")),
    ]


def forms(S, tr, name, args):
    out = [r for r in find(S, "Mat", tr, name) if r.get("trait_args") and tyname(S.types, r["trait_args"][0]) in args]
    if not out:
        S.violate("Mat as %s<%s>" % (tr, args[0]), "anchor", "the operator this property is stated for is not in the crate any more")
    return out


def unchanged(S, fn, o, ins, skip=()):
    """operands behind shared references are not changed (the language guarantees it; recorded for completeness)"""


# ------------------------------------------------------------------------------------- L01
def sub_mats(S, v, F, out=None, depth=0):
    """(facts, matrix value) for every matrix inside a value; an arbitrary element stands for those of a sequence"""
    out = [] if out is None else out
    v = force(v, S.types) if not isinstance(v, (tuple, bool)) else v
    if isinstance(v, AdtV):
        if last(v.path) == "Mat":
            out.append((F, v))
        else:
            for x in v.fields:
                sub_mats(S, x, F, out, depth + 1)
    elif isinstance(v, TupV):
        for x in v.fields:
            sub_mats(S, x, F, out, depth + 1)
    elif isinstance(v, LitSeq):
        for x in v.items:
            sub_mats(S, x, F, out, depth + 1)
    elif isinstance(v, Seq):
        i = P(var("e", depth + 1))
        G = F.add_all([("ge", i), ("ge", v.n - 1 - i)])
        if G is not None:
            if isinstance(v, (CompSeq, FiltSeq)):
                k = P(var("e", depth + 1))
                B = Subst({v.bv: k})
                for ls, x in v.cases:
                    H = F.add_all([("ge", k), ("ge", P(v.m if isinstance(v, FiltSeq) else v.n) - 1 - k)] + list(B.any(tuple(ls))))
                    if H is not None:
                        sub_mats(S, B.any(x), H, out, depth + 1)
                return out
            x = pure_get(v, i, G, S.types)
            if isinstance(x, Val):
                sub_mats(S, x, G, out, depth + 1)
    return out


def ty_has(S, ty, name, depth=0):
    t = S.types.T[ty]
    if t["k"] == "ref":
        return ty_has(S, t["e"], name, depth)
    if t["k"] == "adt":
        if last(t["path"]) == name:
            return True
        if depth < 4 and any(isinstance(a, int) and ty_has(S, a, name, depth + 1) for a in t.get("args") or []):
            return True
        if depth < 4 and t["path"] in S.prog.adts and last(t["path"]) not in ("Cone", "Face"):
            return any(ty_has(S, f["ty"], name, depth + 1) for vv in S.prog.adts[t["path"]]["variants"] for f in vv["fields"] if isinstance(f.get("ty"), int))
    if t["k"] == "tuple":
        return any(ty_has(S, e, name, depth + 1) for e in t["es"])
    return False


def l01(S):
    ops = {}
    for op in constructors(S) + row_ops(S):
        ops[op.name] = op
    seen = set()
    for r in S.prog.roots:
        if r["kind"] != "fn" or not (r["pub"] or r.get("trait")) or S.prog.body(r["key"]) is None:
            continue
        if last(r.get("trait")) in ("Debug", "Display", "Hash", "PartialEq"):
            continue
        b = S.prog.body(r["key"])
        rt = b.locals[0]
        ps = params(S, r)
        mutp = [i for i, p in enumerate(ps) if S.types.T[p]["k"] == "ref" and S.types.T[p].get("mut") and is_mat(S, p)]
        res = ty_has(S, rt, "Mat") and S.types.T[rt]["k"] != "ref"
        if not (mutp or res) or r["name"] in L01_ELSEWHERE:
            continue
        fn = label(r)
        seen.add(r["name"])
        try:
            F, x = mat_inputs(S, r)
        except Undecided as e:
            S.undecided(fn, "rows times columns entries", str(e))
            continue
        args, store, setup = special_args(S, r)
        if args is not None:
            S.inargs = (args, store, {})
        outs = mexplore(S, r, F)
        for o in outs or ():
            if o.kind != "ret":
                continue
            try:
                found = sub_mats(S, o.val, o.facts)
            except Undecided as e:
                S.undecided(fn, "rows times columns entries", str(e))
                continue
            for G, v in found:
                try:
                    m = M(S, v)
                    S.goal(fn, "rows times columns entries", G, L(m.shape_fact()))
                except Undecided as e:
                    S.undecided(fn, "rows times columns entries", str(e))
            for i in mutp:
                try:
                    m, old = M(S, o.store[("A", "a%d" % i)]), x[i]
                    S.goal(fn, "keeps shape and number of entries", o.facts, AND(eq(m.R, old.R), eq(m.C, old.C), eq(m.seq.n, old.seq.n)))
                except (Undecided, KeyError) as e:
                    S.undecided(fn, "keeps shape and number of entries", str(e))
    # the constructor refuses another number of entries
    r = the(S, "Mat", None, "new")
    if r:
        F, x = mat_inputs(S, r)
        fn = label(r)
        for o in mexplore(S, r, F) or ():
            good = eq(x[2].n, x[0] * x[1])
            if o.kind == "ret":
                m = M(S, o.val)
                S.goal(fn, "a matrix is only made from rows times columns entries", o.facts, L(good))
                S.goal(fn, "has the requested shape", o.facts, AND(eq(m.R, x[0]), eq(m.C, x[1])))
                entries_kept(S, fn, o.facts, m, x[2])
            else:
                S.goal(fn, "panics only for a wrong number of entries", o.facts, L(neg(good)))
    # documented shapes
    for op in constructors(S) + row_ops(S):
        r = the(S, "Mat", None, op.name)
        if r:
            shapes(S, op, r)
    for tr, name, args, op in binary_ops(S):
        for r in forms(S, tr, name, args):
            shapes(S, op, r)


L01_ELSEWHERE = set()


def entries_kept(S, fn, F, m, s):
    i = P(var("i"))
    G = F.add_all([("ge", i), ("ge", s.n - 1 - i)])
    ok = False
    try:
        ok = G is None or prove(G, L(req(pure_get(m.seq, i, G, S.types), pure_get(s, i, G, S.types))))
    except Undecided:
        pass
    settle(S, fn, "keeps the given entries in order", F, ok, (m.seq, s), lambda w: list(w.seq(m.seq)) == list(w.seq(s)), "changes the entries")


def shapes(S, op, r):
    try:
        fn, F, x, outs = run_op(S, op, r)
        for o in outs:
            if o.kind == "ret":
                m = result_mat(S, o)
                shape(S, fn, "documented shape", o.facts, m, op.R(x), op.C(x))
    except (Undecided, KeyError, AttributeError, TypeError, IndexError) as e:
        S.undecided(label(r), "documented shape", str(e)[:200])


def special_args(S, r):
    """explicit arguments for functions that take any iterator"""
    ps = params(S, r)
    if not any(S.types.T[p]["k"] == "param" and S.types.T[p].get("name") not in ("F",) for p in ps):
        return None, None, None
    args = []
    for i, p in enumerate(ps):
        t = S.types.T[p]
        if t["k"] == "param" and t.get("name") != "F":
            fty = next((k for k, u in enumerate(S.types.T) if u["k"] == "param" and u.get("name") == "F"), None)
            args.append(IterV(Src("val", (SymSeq(("in", "a%d" % i), fty, P(make("len", (("in", "a%d" % i),), "usize"))),))))
        else:
            args.append(SymV(("in", "a%d" % i), p))
    return args, {}, None


# ------------------------------------------------------------------------------------- L02
def coll(ex, ctx, v):
    from .. import models
    return models.collect_seq(ex, ctx, models.into_iter(ex, ctx, v))


def cell_of(S, v, mut=None):
    """(position, is the cell of the entries of argument 0) of a reference to an entry"""
    if not isinstance(v, RefV) or v.root != ("A", "a0") or len(v.path) != 2 or v.path[1][0] != "i":
        raise Undecided("not a reference into the entries: %r" % (v,))
    return v.path[1][1], v.path[0]


def nums(S, x):
    """the numbers among the arguments, pairs flattened"""
    out = []
    for v in x:
        if isinstance(v, TupV):
            out += [force(y, S.types) for y in v.fields]
        elif isinstance(v, Poly):
            out.append(v)
    return out


def entries_field(S):
    p = next(p for p in S.prog.adts if last(p) == "Mat")
    return field_names(S, p).index("entries")


def l02(S):
    ef = entries_field(S)
    # single cells
    for ty, tr, name in (("Mat", None, "get_unchecked"), ("Mat", None, "get_mut_unchecked"), ("Mat", "Index", "index"), ("Mat", "IndexMut", "index_mut")):
        r = the(S, ty, tr, name)
        if not r:
            continue
        fn = label(r)
        F, x = mat_inputs(S, r)
        a = x[0]
        rr, cc = nums(S, x[1:])
        F = F.add_all([("ge", a.R - 1 - rr), ("ge", a.C - 1 - cc)])
        what = "refers to the entry in the given row and column"
        for o in mexplore(S, r, F) or ():
            if o.kind != "ret":
                S.reach(fn, "in-range access never panics", o.facts, o.msg)
                continue
            try:
                p, f0 = cell_of(S, o.val)
                S.structural(fn, "is a cell of the entries", f0[1] == ef or None, "refers to field %r" % (f0,))
                S.goal(fn, what, o.facts, L(eq(p, rr * a.C + cc)))
            except Undecided as e:
                S.undecided(fn, what, str(e))
    # rows, columns, entries
    for name, want in (("rows", lambda a: a.R), ("cols", lambda a: a.C)):
        r = the(S, "Mat", None, name)
        if r:
            F, x = mat_inputs(S, r)
            for o in mexplore(S, r, F) or ():
                S.goal(label(r), "number of " + name, o.facts, L(eq(o.val, want(x[0]))) if o.kind == "ret" else False)
    r = the(S, "Mat", None, "entries")
    if r:
        F, x = mat_inputs(S, r)
        for o in mexplore(S, r, F, then=lambda ex, ctx, v: ctx.load(v)) or ():
            s = force(o.val, S.types) if o.kind == "ret" else None
            same_seq(S, label(r), "all entries in row-major order", o.facts, s, x[0].seq)
    # iterators over a row or a column
    for name, along in (("get_row_iter", "r"), ("get_row_iter_mut", "r"), ("get_col_iter", "c"), ("get_col_iter_mut", "c")):
        r = the(S, "Mat", None, name)
        if not r:
            continue
        fn = label(r)
        F, x = mat_inputs(S, r)
        a, k = x[0], nums(S, x[1:])[0]
        F = F.add(("ge", (a.R if along == "r" else a.C) - 1 - k))
        n = a.C if along == "r" else a.R
        for o in mexplore(S, r, F, then=coll) or ():
            if o.kind != "ret":
                S.reach(fn, "in-range access never panics", o.facts, o.msg)
                continue
            walk_cells(S, fn, o, a, n, (lambda j: k * a.C + j) if along == "r" else (lambda j: j * a.C + k), ef)
    # extraction
    for name, along in (("get_row", "r"), ("get_col", "c")):
        op = Op(name, (lambda x: x[0].C) if along == "r" else (lambda x: x[0].R), lambda x: ONE,
                (lambda x: lambda r, c: [((), x[0].at(x[1], r))]) if along == "r" else (lambda x: lambda r, c: [((), x[0].at(r, x[1]))]),
                (lambda w, x: (lambda t: (t[1], 1, rows_of(t)[wint(w, x[1])]))(wmat(w, x[0]))) if along == "r" else (lambda w, x: (lambda t: (t[0], 1, [g[wint(w, x[1])] for g in rows_of(t)]))(wmat(w, x[0]))),
                pre=(lambda x: [("ge", x[0].R - 1 - x[1])]) if along == "r" else (lambda x: [("ge", x[0].C - 1 - x[1])]), what="the entries of the %s in order, as a column" % ("row" if along == "r" else "column"))
        check_op(S, op, [the(S, "Mat", None, name)])
    # index iterators
    for ty, nm in (("Mat", "index_iter"), (None, "get_box_iter")):
        r = the(S, ty, None, nm)
        if r:
            fn = label(r)
            F, x = mat_inputs(S, r)
            for o in mexplore(S, r, F, then=coll) or ():
                if o.kind != "ret":
                    S.reach(fn, "never panics", o.facts, o.msg)
                    continue
                index_pairs(S, fn, o.facts, force(o.val, S.types), *((x[0].R, x[0].C) if ty else x[:2]))
    # exchange of two entries
    r = the(S, "Mat", None, "swap")
    if r:
        fn = label(r)
        F, x = mat_inputs(S, r)
        a = x[0]
        r1, c1, r2, c2 = nums(S, x[1:])
        F = F.add_all([("ge", a.R - 1 - r1), ("ge", a.C - 1 - c1), ("ge", a.R - 1 - r2), ("ge", a.C - 1 - c2)])
        def wswap(w):
            R, C, e = wmat(w, a)
            p, q = wint(w, r1) * C + wint(w, c1), wint(w, r2) * C + wint(w, c2)
            e[p], e[q] = e[q], e[p]
            return R, C, e
        for o in mexplore(S, r, F) or ():
            if o.kind != "ret":
                S.reach(fn, "in-range access never panics", o.facts, o.msg)
                continue
            m = result_mat(S, o)
            shape(S, fn, "keeps the shape", o.facts, m, a.R, a.C)
            spec = lambda r, c: [((eq(r, r1), eq(c, c1)), a.at(r2, c2)), ((eq(r, r2), eq(c, c2)), a.at(r1, c1))] + \
                [(l1 + l2, a.at(r, c)) for l1 in (((ne(r, r1),), (eq(r, r1), ne(c, c1)))) for l2 in ((ne(r, r2),), (eq(r, r2), ne(c, c2)))]
            entries(S, fn, "exchanges exactly the two entries", o.facts, m, spec, wswap, (a.seq,), on=[("r", r1), ("r", r2), ("c", c1), ("c", c2)])


def same_seq(S, fn, what, F, s, t):
    if s is None or not isinstance(s, Seq):
        S.undecided(fn, what, "no sequence")
        return
    i = P(var("i"))
    G = F.add_all([("ge", i), ("ge", t.n - 1 - i)])
    try:
        ok = prove(F, L(eq(s.n, t.n))) and (G is None or prove(G, L(req(pure_get(s, i, G, S.types), pure_get(t, i, G, S.types)))))
    except Undecided:
        ok = False
    settle(S, fn, what, F, ok, (s, t), lambda w: list(w.seq(s)) == list(w.seq(t)), "yields other elements")


def quot_facts(F):
    """F with exact quotients evaluated: quot(a*b, b) = a for b > 0"""
    if F is None:
        return None
    ls = []
    for a in sorted(fv(tuple(F.lits)), key=lambda a: a.s):
        if a.kind in ("quot", "rem") and not a.bvl:
            ls += exact_quot(F, a)
    return F.add_all(ls)


def exact_quot(F, a):
    x, b = a.args
    out = []
    for y in [x] + [(-l[1] + (x if k == 1 else -x)) if False else None for k in ()]:
        q = div_exact(y, b)
        if q is not None:
            out.append(eq(P(a), q if a.kind == "quot" else ZERO))
    for l in sorted(F.lits, key=show_lit):
        if l[0] == "eq":
            li = None
            for at in x.atoms():
                li = l[1].linear_in(at)
                if li and li[0].const() in (1, -1) and x == P(at):
                    y = -li[1] * li[0].const()
                    q = div_exact(y, b)
                    if q is not None:
                        out.append(eq(P(a), q if a.kind == "quot" else ZERO))
    return out


def walk_cells(S, fn, o, a, n, pos, ef):
    """the sequence of references o.val visits the positions pos(0), …, pos(n-1) of the entries"""
    s = force(o.val, S.types)
    what = "visits the entries in increasing order, each once"
    F = o.facts
    ok = False
    try:
        ls = []
        for at in sorted(fv(s.n), key=lambda t: t.s):
            if at.kind in ("quot", "rem"):
                ls += exact_quot(F, at)
        G0 = quot_facts(F)
        G0 = G0.add_all(ls) if G0 is not None else None
        if G0 is None or prove(G0, False) or with_products(G0) is None:
            ok = True
        else:
            j = P(var("j"))
            G = G0.add_all([("ge", j), ("ge", n - 1 - j)])
            ok = prove(G0, L(eq(s.n, n))) or prove(with_products(G0), L(eq(s.n, n)))
            if ok and G is not None:
                v = pure_get(s, j, G, S.types)
                p, f0 = cell_of(S, v)
                ok = f0[1] == ef and prove(G, L(eq(p, pos(j))))
    except (Undecided, RecursionError):
        ok = False

    def pred(w):
        want = [("ref", ("A", "a0"), ("f", ef), ("i", int(w.num(pos(P(j)))))) for j in range(int(w.num(n)))]
        got = [norm_ref(x) for x in w.seq(s)]
        return got == want
    settle(S, fn, what, F, ok, (s, n), pred, "visits other entries")


def norm_ref(x):
    if isinstance(x, tuple) and x and x[0] == "ref" and len(x) == 4 and x[2][0] == "f":
        return ("ref", x[1], ("f", x[2][1]), x[3])
    return x


def index_pairs(S, fn, F, s, R, C):
    what = "visits every position once, row by row"
    ok = False
    try:
        r, c = P(var("r")), P(var("c"))
        G = F.add_all([("ge", r), ("ge", R - 1 - r), ("ge", c), ("ge", C - 1 - c)])
        ok = prove(F, L(eq(s.n, R * C)))
        if ok and G is not None:
            v = pure_get(s, r * C + c, G, S.types)
            a, b = (box(force(y, S.types), C, r, c) for y in v.fields)
            ok = prove(G, AND(eq(a, r), eq(b, c)))
    except (Undecided, RecursionError, AttributeError):
        ok = False

    def pred(w):
        return [tuple(x) for x in w.seq(s)] == [(i, j) for i in range(int(w.num(R))) for j in range(int(w.num(C)))]
    settle(S, fn, what, F, ok, (s, R, C), pred, "visits other positions")


# ------------------------------------------------------------------------------------- L03
def l03(S):
    table = [("Add", "add", ("Mat", "&Mat"), lambda a, b: [eq(a.R, b.R), eq(a.C, b.C)], "adding"),
             ("Mul", "mul", ("Mat", "&Mat"), lambda a, b: [eq(a.C, b.R)], "multiplying")]
    for tr, name, args, ok, verb in table:
        for r in forms(S, tr, name, args):
            compat(S, r, ok, verb)
    r = the(S, "Mat", None, "dot")
    if r:
        compat(S, r, lambda a, b: [eq(a.seq.n, b.seq.n)], "the dot product of")


def compat(S, r, ok, verb):
    fn = label(r)
    F, x = mat_inputs(S, r)
    cond = ok(x[0], x[1])
    for o in mexplore(S, r, F) or ():
        if o.kind == "ret":
            S.goal(fn, "%s matrices of incompatible shapes is rejected" % verb, o.facts, AND(*cond))
        else:
            S.goal(fn, "%s compatible matrices does not panic" % verb, o.facts, OR(*[neg(l) for l in cond]), " (%s)" % o.msg)


# ------------------------------------------------------------------------------------- L04
def l04(S):
    for op in constructors(S):
        check_op(S, op, [the(S, "Mat", None, op.name)])
    # collecting from an iterator: a column with the elements in order
    r = the(S, "Mat", "From", "from")
    if r:
        fn = label(r)
        args, store, _ = special_args(S, r)
        if args is None:
            S.undecided(fn, "collects a column", "unexpected parameter types")
        else:
            src = args[0].src.args[0]
            for o in S.explore(fn, root=r, args=args, store=store, tag=None) or ():
                if o.kind != "ret":
                    S.reach(fn, "never panics", o.facts, o.msg)
                    continue
                m = M(S, o.val)
                shape(S, fn, "is a column of all the elements", o.facts, m, src.n, ONE)
                same_seq(S, fn, "keeps the elements in order", o.facts, m.seq, src)


# ------------------------------------------------------------------------------------- L05
def l05(S):
    for tr, name, args, op in binary_ops(S):
        for r in forms(S, tr, name, args):
            check_op(S, op, [r])
    scale = [op for op in row_ops(S) if op.name == "scale"]
    for op in scale:
        check_op(S, op, [the(S, "Mat", None, op.name)])
    for name, want, wwant in (
            ("dot", lambda x, k: pure_get(x[0].seq, k, Facts(), S.types) * pure_get(x[1].seq, k, Facts(), S.types), lambda w, x: sum(a * b for a, b in zip(w.seq(x[0].seq), w.seq(x[1].seq)))),
            ("frobenius_norm", lambda x, k: pure_get(x[0].seq, k, Facts(), S.types) ** 2, lambda w, x: sum(a * a for a in w.seq(x[0].seq)))):
        r = the(S, "Mat", None, name)
        if not r:
            continue
        fn = label(r)
        F, x = mat_inputs(S, r)
        if name == "dot":
            F = F.add(eq(x[0].seq.n, x[1].seq.n))
        k = atom("q", ("k", 3), NAT)
        spec = Sum(ZERO, x[0].seq.n, k, want(x, P(k)))
        what = "sum of products of corresponding entries" if name == "dot" else "sum of the squared entries"
        for o in mexplore(S, r, F) or ():
            if o.kind != "ret":
                S.reach(fn, "never panics for equal numbers of entries", o.facts, o.msg)
                continue
            v = force(o.val, S.types)
            ok = isinstance(v, Poly) and prove(o.facts, L(req(v, spec)))
            settle(S, fn, what, o.facts, ok, (v,), lambda w: w.num(v) == wwant(w, x), "is another number")


# ------------------------------------------------------------------------------------- L06
def l06(S):
    for op in row_ops(S):
        check_op(S, op, [the(S, "Mat", None, op.name)])
    for name, upper in (("is_upper_triangular", True), ("is_lower_triangular", False)):
        r = the(S, "Mat", None, name)
        if r:
            triangular(S, r, upper)


def triangular(S, r, upper):
    fn = label(r)
    F, x = mat_inputs(S, r)
    a = x[0]

    def wtri(w):
        R, C, e = wmat(w, a)
        return all(e[i * C + j] == 0 for i in range(R) for j in range(C) if (j < i if upper else j > i))
    what = "true exactly when all entries %s the diagonal are zero" % ("below" if upper else "above")
    for o in mexplore(S, r, F) or ():
        if o.kind != "ret":
            S.reach(fn, "never panics", o.facts, o.msg)
            continue
        v = o.val
        ok = False
        try:
            if v is True or v is False:
                ok = tri_true(S, o.facts, a, upper) if v else tri_false(S, o.facts, a, upper)
            else:
                fs = dnf(v)
                ok = all(tri_true(S, o.facts.add_all(c), a, upper) for c in fs) and all(tri_false(S, o.facts.add_all(c), a, upper) for c in dnf(f_not(v)))
        except (Undecided, RecursionError):
            ok = False
        settle(S, fn, what, o.facts, ok, (a.seq, a.R, a.C) + ((v,) if not isinstance(v, bool) else ()),
               lambda w, v=v: (w.formula(v) if not isinstance(v, bool) else v) == wtri(w), "has the other answer")


def tri_true(S, F, a, upper):
    if F is None:
        return True
    i, j = P(var("r")), P(var("c"))
    G = F.add_all([("ge", i), ("ge", a.R - 1 - i), ("ge", j), ("ge", a.C - 1 - j), ("ge", i - 1 - j) if upper else ("ge", j - 1 - i)])
    if G is None or contradictory(G):
        return True
    return prove(G, L(req(a.at(i, j, G))))


def tri_false(S, F, a, upper):
    """some entry on the wrong side is known not to be zero"""
    if F is None:
        return True
    for l in sorted(F.lits, key=show_lit):
        if l[0] in ("rne", "ne"):
            for at in fv(l):
                if at.kind == "x" and isinstance(at.args[0], tuple) and at.args[0][0] == "el" and isinstance(at.args[0][2], Poly):
                    p = at.args[0][2]
                    C = a.C.single() if hasattr(a.C, "single") else None
                    if C is None:
                        continue
                    A, B = split_by(p, C)
                    G = with_products(F)
                    for k in (0, 1, -1):
                        i, j = A + k, B - k * a.C
                        if G is None or all(prove(G, L(q)) for q in (("ge", i), ("ge", a.R - 1 - i), ("ge", j), ("ge", a.C - 1 - j), ("ge", i - 1 - j) if upper else ("ge", j - 1 - i),
                                                                     rne(a.at(i, j)))):
                            return True
    return False


CHECKS = {"L01": l01, "L02": l02, "L03": l03, "L04": l04, "L05": l05, "L06": l06}
