"""L07-L09, C08: elimination.  The loops that carry the matrices are decided by induction: the state at the
loop head is unknown except for the invariants, and each way through the body is shown to preserve them.
The invariants imply the stated property of the result; the argument is in DESIGN.md."""
from fractions import Fraction
from .common import *
from .mdeg import settle
from .linalg import M, mat_inputs, put_inputs, mexplore, wmat, splits, last, field_names, shape, result_mat, box, entries, build, var
from ..loops import Loop
from ..replay import value_at, counterexample


# ------------------------------------------------------------------------------------- loop heads
class Head:
    """an analysed loop: what is known at its head and what each way through its body does"""

    def __init__(self, S, L):
        self.S, self.L = S, L
        self.leaves = list(L.W.leaves.values())

    def value(self, root, path, store):
        return value_at(root, path, store, self.S.types)

    def mats(self):
        """leaves that are the entries of a matrix: (leaf, matrix at the head, path of the matrix)"""
        out = []
        for lf in self.leaves:
            if lf.kind == "seq" and lf.path:
                m = self.value(lf.root, lf.path[:-1], self.L.H)
                if isinstance(m, AdtV) and last(m.path) == "Mat":
                    out.append((lf, M(self.S, m)))
        return out

    def mat_after(self, lf, o):
        v = self.value(lf.root, lf.path[:-1], o.store)
        return None if v is None else M(self.S, v)

    def after(self, lf, o):
        return self.value(lf.root, lf.path, o.store)


def heads(S, r, args, store, types, F, **kw):
    """outcomes of r and its analysed loops"""
    hs = {}
    S.loops = []

    def hook(L):
        S.loops.append(L)
        hs[L.lid] = L       # the last analysis of a loop is the final one

    def setup(ex):
        ex.roottype.update(types)
        ex.loophook = hook
    outs = S.explore(label(r), root=r, facts=F, tag=None, args=list(args), store=dict(store), setup=setup, **kw)
    return outs, [Head(S, L) for L in hs.values()]


def lits(G, *ls):
    return G.add_all(ls) if G is not None else None


def holds(G, *goals):
    """every literal follows from G (or G is contradictory)"""
    if G is None or contradictory(G):
        return True
    for g in goals:
        if prove(G, L(g)):
            continue
        H, x = rewritten(G, g)
        if H is None or contradictory(H):
            return True
        if x == g and H is G and ite_in(x) is None:
            return False
        if not by_rewriting(H, x, 0):
            return False
    return True


def by_rewriting(G, g, depth):
    """g by cases on its conditions, the equalities of each case used for rewriting"""
    if G is None or contradictory(G):
        return True
    if depth:
        G, g = rewritten(G, g)
        if G is None or contradictory(G):
            return True
    if ite_in(g) is None or depth > 12:
        return prove(G, L(g))
    return expand_ites(G, g, lambda H, x: by_rewriting(H, x, depth + 1))


def rewritten(G, g):
    """facts and goal with the known equalities between numbers used as rewriting rules (inside indices too)"""
    for _ in range(6):
        m = None
        for l in sorted(G.lits, key=show_lit):
            if l[0] != "eq":
                continue
            best = None
            for mono, c in l[1].t:
                if len(mono) == 1 and mono[0][1] == 1 and c in (1, -1):
                    a = mono[0][0]
                    rest = l[1] - c * P(a)
                    if a not in fv(rest) and (best is None or (a.kind != "q", -len(a.s), a.s) < (best[0].kind != "q", -len(best[0].s), best[0].s)):
                        best = (a, -rest if c == 1 else rest)
            if best is not None and (best[0] in fv(g) or any(best[0] in fv(x) for x in G.lits if x is not l)):
                m = (l, best)
                break
        if m is None:
            return G, g
        s = Subst({m[1][0]: m[1][1]})
        G2 = Facts(G.lits - {m[0]}, G.foralls).subst(s)
        if G2 is None:
            return None, g
        G, g = G2, norm_lit(s.any(g))
    return G, g


def cell(m, i, j, G):
    return box(m.at(i, j, G), m.C, i, j)


def under(G, pairs, k):
    """k(H) for every order of the pairs compatible with G"""
    if G is None or contradictory(G):
        return True
    return splits(G, pairs, k)


def is_identity(m, F):
    i, j = P(var("i")), P(var("j"))
    G = lits(F, ("ge", i), ("ge", m.R - 1 - i), ("ge", j), ("ge", m.C - 1 - j))
    return m.R == m.C and under(G, [(i, j)], lambda H: holds(H, req(cell(m, i, j, H), ONE if H.decide(eq(i, j)) else ZERO)))


class Attempt(Exception):
    """a step of the argument that could not be shown"""


def need(ok, what):
    if not ok:
        raise Attempt(what)


# ------------------------------------------------------------------------------------- ranks
def rank(x):
    return P(sym("stab", (x,), "nat"))


def zero_by_rank(G, x):
    """x = 0 follows: its rank is at most the rank of something that is zero (zero is the only element of rank 0)"""
    if G is None or contradictory(G) or holds(G, req(x)):
        return True
    H = lits(G, rne(x), ("ge", rank(x) - 1))
    if H is None or contradictory(H):
        return True
    for l in sorted(G.lits, key=show_lit):
        if l[0] == "req" and l[1].single() is not None:
            y = rank(l[1])
            K = lits(H, eq(y))
            # instances of "no element has a larger rank than the one found"
            if K is None or contradictory(K) or prove(K, L(("ge", y - rank(x)))):
                return True
    return False


# ------------------------------------------------------------------------------------- the forward phase
class Forward:
    """elimination downwards on u (n rows, m columns): r rows have their pivot, c columns are done.
    Invariants: r <= c <= m, r <= n, u[i,j] = 0 for i >= r, j < c; and for LU: l[i,k] = (i = k) for k >= r,
    l lower triangular with nonzero diagonal, p a permutation."""

    def __init__(self, S, head, A, ul):
        self.S, self.h, self.A, self.ul = S, head, A, ul
        self.n, self.m = A.R, A.C
        self.u = dict((l.id, m) for l, m in head.mats())[ul.id]

    def pairs(self):
        """candidates for (rows done, columns done)"""
        cs = [lf for lf in self.h.leaves if lf.kind == "num" and isinstance(lf.init, Poly) and not lf.init.t]
        return [(a, b) for a in cs for b in cs if a is not b]

    def base(self, o):
        return lits(o.facts, ("ge", self.c - self.r), ("ge", self.n - self.r), ("ge", self.r), ("ge", self.m - self.c))

    def at(self, G, i=None, j=None, lo=None):
        """facts for an arbitrary row / column"""
        if i is not None:
            G = lits(G, ("ge", i - (lo if lo is not None else 0)), ("ge", self.n - 1 - i))
        if j is not None:
            G = lits(G, ("ge", j), ("ge", self.m - 1 - j))
        return G

    def zeros(self, G, j, rows):
        """the invariant at column j < c for the given rows"""
        for i in rows:
            if G is not None:
                G = lits(G, req(cell(self.u, i, j, G)))
        return G

    def same(self, G, a, b, what):
        i, j = P(var("i")), P(var("j"))
        need(a.R == b.R and a.C == b.C, what + ": shape")
        if a.seq != b.seq:
            H = lits(G, ("ge", i), ("ge", a.R - 1 - i), ("ge", j), ("ge", a.C - 1 - j))
            need(under(H, [], lambda K: holds(K, req(cell(a, i, j, K), cell(b, i, j, K)))), what + ": entries")

    def moved(self, G, i, s):
        """the row before the exchange of rows r and s that ends up as row i >= r"""
        if G.decide(eq(i, self.r)):
            return s
        if G.decide(eq(i, s)):
            return self.r
        return i

    def step(self, o, others):
        """the invariants of u are kept by this way through the body; returns (pivot found, u after)"""
        G = self.base(o)
        if G is None or contradictory(G):
            return None
        u2 = self.h.mat_after(self.ul, o)
        r2, c2 = self.h.after(self.rl, o), self.h.after(self.cl, o)
        need(u2 is not None and isinstance(r2, Poly) and isinstance(c2, Poly), "state after the body")
        need(u2.R == self.n and u2.C == self.m, "shape of the form")
        need(holds(G, eq(c2, self.c + 1), ("ge", self.m - c2)), "the columns are taken one by one")
        i = P(var("i"))
        if holds(G, eq(r2, self.r)):
            self.same(G, u2, self.u, "no pivot")
            H = self.at(G, i, lo=self.r)
            need(H is None or zero_by_rank(H, cell(self.u, i, self.c, H)), "a column without pivot is zero")
            return False
        need(holds(G, eq(r2, self.r + 1), ("ge", self.n - r2), ("ge", self.c - self.r)), "one row at a time")
        return True

    def eliminated(self, o, u2, s):
        """u after a step: a one at (r,c), zeros below and to the left; earlier rows unchanged"""
        G = self.base(o)
        i, j = P(var("i")), P(var("j"))
        H = self.at(G, i, j)
        H = lits(H, ("ge", self.r - 1 - i))
        need(under(H, [], lambda K: holds(K, req(cell(u2, i, j, K), cell(self.u, i, j, K)))), "earlier rows are unchanged")
        need(holds(G, req(cell(u2, self.r, self.c, G), ONE)), "the pivot is one")
        H = self.at(G, i, lo=self.r + 1)
        need(under(H, [(i, s)], lambda K: holds(K, req(cell(u2, i, self.c, K)))), "zeros below the pivot")
        H = lits(self.at(G, i, j, lo=self.r), ("ge", self.c - 1 - j))

        def left(K):
            return holds(self.zeros(K, j, (self.r, s, i)), req(cell(u2, i, j, K)))
        need(under(H, [(i, self.r), (i, s)], left), "zeros to the left stay")


class LU(Forward):
    def __init__(self, S, head, A, ul, ll, pl):
        super().__init__(S, head, A, ul)
        self.ll, self.pl = ll, pl
        self.l = dict((l.id, m) for l, m in head.mats())[ll.id]
        self.p = pl.hv

    def ident(self, G, i, k):
        """the invariant of l at (i,k)"""
        if G is None:
            return None
        x = cell(self.l, i, k, G)
        if G.decide(("ge", k - self.r)):
            if G.decide(eq(i, k)):
                return lits(G, req(x, ONE))
            if G.decide(ne(i, k)) or G.decide(eq(i, k)) is False:
                return lits(G, req(x))
        if G.decide(("ge", k - i - 1)):
            return lits(G, req(x))
        if G.decide(eq(i, k)):
            return lits(G, rne(x))
        return G

    def partner(self, p2, r):
        """the row number that p2 has at r"""
        idx = {fv_index(a, self.p) for a in fv(p2) if fv_index(a, self.p) is not None}
        idx = [P(x) for x in idx if P(x) != r]
        need(len(idx) <= 1, "the row exchanged into place")
        return idx[0] if idx else r

    def preserved(self, o):
        piv = self.step(o, None)
        if piv is None:
            return
        G = self.base(o)
        l2, u2, p2 = self.h.mat_after(self.ll, o), self.h.mat_after(self.ul, o), self.h.after(self.pl, o)
        if not piv:
            self.same(G, l2, self.l, "no pivot")
            need(p2 == self.p, "no pivot: the permutation is unchanged")
            return
        need(l2.R == self.n and l2.C == self.n and isinstance(p2, Seq), "shape of l")
        i, j, k = P(var("i")), P(var("j")), P(var("k"))
        r = self.r
        s = self.partner(p2, r)
        need(holds(G, ("ge", s - r), ("ge", self.n - 1 - s)), "the row exchanged into place is one not done yet")
        # the permutation
        H = self.at(G, i)

        def perm(K):
            w = i if K.decide(("ge", r - 1 - i)) else self.moved(K, i, s)
            return holds(K, eq(pure_get(p2, i, K, self.S.types), pure_get(self.p, P(w), K, self.S.types)))
        need(under(H, [(i, r), (i, s)], perm), "the permutation exchanges the rows")
        # u: l'[i,r] u'[r,j] + u'[i,j] is the old row
        H = self.at(G, i, j, lo=r)

        def rows(K):
            w = self.moved(K, i, s)
            x = cell(l2, i, r, K) * cell(u2, r, j, K)
            if not K.decide(eq(i, r)):
                x = x + cell(u2, i, j, K)
            return holds(K, req(x, cell(self.u, w, j, K)))
        need(under(H, [(i, r), (i, s)], rows), "l times u is kept in the rows being eliminated")
        # l
        H = lits(self.at(G, i, lo=r), ("ge", k), ("ge", r - 1 - k))
        need(under(H, [(i, r), (i, s)], lambda K: holds(K, req(cell(l2, i, k, K), cell(self.l, self.moved(K, i, s), k, K)))),
             "the multipliers found so far are exchanged with the rows")
        H = lits(self.at(G, i), ("ge", r - 1 - i), ("ge", k), ("ge", self.n - 1 - k))
        need(under(H, [], lambda K: holds(K, req(cell(l2, i, k, K), cell(self.l, i, k, K)))), "earlier rows of l are unchanged")
        H = lits(self.at(G, i, lo=r), ("ge", k - r - 1), ("ge", self.n - 1 - k))
        need(under(H, [(i, k), (i, r), (i, s)], lambda K: holds(self.ident(K, i, k), req(cell(l2, i, k, K), ONE if K.decide(eq(i, k)) else ZERO))),
             "later columns of l are those of the identity")
        need(holds(G, rne(cell(l2, r, r, G))), "the diagonal entry is not zero")
        self.eliminated(o, u2, s)


def fv_index(a, p):
    """k when the atom is the element p[k]"""
    key = getattr(p, "key", None)
    if a.kind == "x" and isinstance(a.args[0], tuple) and a.args[0][:2] == ("el", key):
        return a.args[0][2]
    return None


def l07(S):
    r = the(S, "Mat", None, "lu")
    if r is None:
        return
    fn = label(r)
    F, ins = mat_inputs(S, r)
    A = ins[0]
    args, store, types = S.inargs
    outs, hs = heads(S, r, args, store, types, F)
    if outs is None:
        return
    if S.peel is not None:
        return
    what = ["every step keeps p A = l u, l lower triangular, u in echelon form", "the loop ends when no row or column is left, with the state it has", "never panics"]
    why = "no loop carries the factors"
    for h in hs:
        ms = h.mats()
        ul = [lf for lf, m in ms if lf.init == A.seq]
        ll = [lf for lf, m in ms if lf.init != A.seq]
        pl = [lf for lf in h.leaves if lf.kind == "seq" and isinstance(lf.hv, SymSeq) and lf.hv.ety is not None and S.types.T[lf.hv.ety]["k"] == "uint"]
        if len(ul) != 1 or len(ll) != 1 or len(pl) != 1:
            continue
        X = LU(S, h, A, ul[0], ll[0], pl[0])
        for X.rl, X.cl in X.pairs():
            X.r, X.c = P(X.rl.hv), P(X.cl.hv)
            try:
                F0 = h.L.F0
                need(lf_init_identity(S, ll[0], A, F0), "l starts as the identity")
                i = P(var("i"))
                G = lits(F0, ("ge", i), ("ge", A.R - 1 - i))
                need(holds(G, eq(pl[0].init.n, A.R), eq(pure_get(pl[0].init, i, G, S.types), i)), "p starts as the identity")
                for o in h.L.backs:
                    X.preserved(o)
                S.proved(fn, what[0])
                lu_exit(S, fn, what[1:], X, outs)
                return
            except Attempt as e:
                why = str(e)
            except (Undecided, RecursionError) as e:
                why = "analysis: %s" % e
    refuted(S, fn, what[0], why, F, outs, lambda w, o: lu_wrong(S, w, o, A))


def refuted(S, fn, what, why, F, outs, bad, prepare=None, extra=None, **more):
    """an induction that was not shown: a violation if the loop leads from some input to a wrong result"""
    try:
        w = counterexample(S.types, F, outs, S.loops, bad, prepare=prepare, extra=extra, **more)
    except RecursionError:
        w = None
    if w is not None:
        S.violate(fn, what, "the steps of the loop do not keep it (%s)" % why, w)
    else:
        S.undecided(fn, what, why)


def lf_init_identity(S, lf, A, F):
    s = lf.init
    i, j = P(var("i")), P(var("j"))
    G = lits(F, ("ge", i), ("ge", A.R - 1 - i), ("ge", j), ("ge", A.R - 1 - j))

    def f(K):
        x = box(pure_get(s, i * A.R + j, K, S.types), A.R, i, j)
        return holds(K, req(x, ONE if K.decide(eq(i, j)) else ZERO))
    return holds(F, eq(s.n, A.R * A.R)) and under(G, [(i, j)], f)


def lu_exit(S, fn, what, X, outs):
    """after the loop: the factors returned are those of the last state, and nothing was left over"""
    for o in outs:
        k = P(atom("q", ("perm",), "usize"))
        try:
            # the invariant: p is a permutation of the row numbers
            G = o.facts.add_forall([(k.single(), ZERO, X.n)], [[("ge", X.n - 1 - pure_get(X.p, k, Facts(), S.types)), ("ge", pure_get(X.p, k, Facts(), S.types))]])
            if o.kind != "ret":
                ok = contradictory(G)
                if not ok:
                    H = with_products(G)
                    ok = H is None or contradictory(H)
                (S.proved if ok else lambda f, w: S.undecided(f, w, o.msg))(fn, what[1])
                continue
            v = force(o.val, S.types)
            f = dict(zip(field_names(S, v.path), v.fields))
            p, l, u = (M(S, f[x]) for x in "plu")
            need(l.seq == X.l.seq and l.R == X.n and l.C == X.n and u.seq == X.u.seq and u.R == X.n and u.C == X.m, "the factors of the last state")
            need(p.R == X.n and p.C == X.n, "shape of the permutation")
            i, j = P(var("i")), P(var("j"))
            H = lits(G, ("ge", i), ("ge", X.n - 1 - i), ("ge", j), ("ge", X.n - 1 - j))
            w = pure_get(X.p, i, Facts(), S.types)
            need(under(H, [(w, j)], lambda K: holds(K, req(cell(p, i, j, K), ONE if K.decide(eq(w, j)) else ZERO))), "the permutation matrix")
            need(ended(X, o), "the loop ends too early")
            S.proved(fn, what[0])
        except Attempt as e:
            S.undecided(fn, what[0], str(e))


def ended(X, o):
    """at the exit no row or no column is left: the number of columns done is the iterator position"""
    for e in X.h.L.outs:
        if e.kind != "ret" or e.val[0] == "back":
            continue
        G = X.base(e)
        if G is None or contradictory(G):
            continue
        H = lits(G, ("ge", X.n - 1 - X.r), ("ge", X.m - 1 - X.c))
        if not (H is None or contradictory(H)):
            return False
        if X.h.mat_after(X.ul, e) is None or X.h.mat_after(X.ul, e).seq != X.u.seq:
            return False
    return True


def matmul(a, b):
    return (a[0], b[1], [sum(a[2][i * a[1] + k] * b[2][k * b[1] + j] for k in range(a[1])) for i in range(a[0]) for j in range(b[1])])


def echelon(t, reduced=False):
    """leading ones, strictly to the right of those above, zeros below (and above) them; zero rows last"""
    R, C, e = t
    prev = -1
    for i in range(R):
        lead = next((j for j in range(C) if e[i * C + j] != 0), None)
        if lead is None:
            prev = C
            continue
        if lead <= prev or e[i * C + lead] != 1:
            return False
        if any(e[k * C + lead] != 0 for k in range(R) if k > i or reduced and k != i):
            return False
        prev = lead
    return True


# ------------------------------------------------------------------------------------- row operations
def each_case(G, xs, k, depth=0):
    """k(H, xs) on every case of the conditions occurring in xs, equalities used for rewriting"""
    if G is None or contradictory(G):
        return True
    G, t = rewritten_all(G, xs)
    if G is None or contradictory(G):
        return True
    a = ite_in(t)
    if a is None or depth > 12:
        return a is None and k(G, t)
    for ls, p in a.args:
        H = G.add_all(ls)
        if H is not None and not each_case(H, subst(t, {a: p}), k, depth + 1):
            return False
    return True


def rewritten_all(G, xs):
    g = ("xs",) + tuple(xs)
    H, y = rewritten(G, ("b", g, True))
    return H, (None if H is None else tuple(y[1][1:]))


def combination(x, m, col, C):
    """x as a combination of the entries of m in column col: {row: coefficient}, or None"""
    if not isinstance(m.seq, SymSeq):
        return None
    ats = [a for a in fv(x) if a.kind == "x" and isinstance(a.args[0], tuple) and a.args[0][:2] == ("el", m.seq.key) and occurs(col, a.args[0][2])]
    out = {}
    for a in ats:
        li = x.linear_in(a)
        if not li or any(b in fv(li[0]) for b in ats):
            return None
        row = div_exact(a.args[0][2] - P(col), C)
        if row is None or occurs(col, row):
            return None
        out[row] = out.get(row, ZERO) + li[0]
        x = li[1]
    return out if not x.t else None


class RowOps(Forward):
    """the same elimination with the transformation p recorded: p a = b is kept because both get the same
    invertible combination of rows"""

    def __init__(self, S, head, A, bl, pl):
        super().__init__(S, head, A, bl)
        self.ul, self.pl = bl, pl
        self.p = dict((l.id, m) for l, m in head.mats())[pl.id]
        self.b = self.u
        self.few = P(0)      # with that few rows there is nothing to do

    def same_op(self, G, i, p2, b2, f, what, aux=()):
        """row i of p2 and of b2 is the same combination of rows of p and b; f checks the combination (given the
        numbers aux as they read in the case at hand)"""
        j, k = var("j"), var("k")
        G = lits(G, ("ge", P(j)), ("ge", self.m - 1 - P(j)), ("ge", P(k)), ("ge", self.n - 1 - P(k)))
        if G is None:
            return

        def one(H, xs):
            dp, db = combination(xs[0], self.p, k, self.n), combination(xs[1], self.b, j, self.m)
            need(dp is not None and db is not None, what + ": not a combination of rows")
            pairs = []
            for r1, c1 in sorted(dp.items(), key=repr):
                r2 = next((r2 for r2 in sorted(db, key=repr) if holds(H, eq(r1, r2))), None)
                c2 = ZERO if r2 is None else db.pop(r2)
                need(holds(H, req(c1, c2)), what + ": different factors for the transformation and the form")
                pairs.append((r1, c1))
            need(all(holds(H, req(c)) for c in db.values()), what + ": an operation on the form only")
            return f(H, [(r, c) for r, c in pairs if not holds(H, req(c))], *xs[2:])
        need(under(G, [], lambda H: each_case(H, (cell(p2, i, P(k), H), cell(b2, i, P(j), H)) + tuple(aux), one)), what)

    def source(self, G, p2, r):
        """the row of the transformation that row r of p2 is made of"""
        k = var("k")
        x = cell(p2, r, P(k), lits(G, ("ge", P(k)), ("ge", self.n - 1 - P(k))))
        rows = set()
        for a in fv(x):
            if a.kind == "x" and isinstance(a.args[0], tuple) and a.args[0][:2] == ("el", self.p.seq.key) and occurs(k, a.args[0][2]):
                rows.add(div_exact(a.args[0][2] - P(k), self.n))
        rows.discard(r)
        need(len(rows) <= 1 and None not in rows, "one pivot row")
        return rows.pop() if rows else r

    def preserved(self, o):
        piv = self.step(o, None)
        if piv is None:
            return
        G = self.base(o)
        p2, b2 = self.h.mat_after(self.pl, o), self.h.mat_after(self.ul, o)
        need(p2.R == self.n and p2.C == self.n, "shape of the transformation")
        if not piv:
            self.same(G, p2, self.p, "no pivot")
            return
        r = self.r
        s = self.source(G, p2, r)

        def pivot(H, rows, s):
            need(len(rows) == 1 and holds(H, rne(rows[0][1])), "the pivot row is a multiple of one row")
            need(holds(H, eq(rows[0][0], s)), "the pivot row comes from one row")
            return True
        self.same_op(G, r, p2, b2, pivot, "pivot row", (s,))
        need(holds(G, ("ge", s - r), ("ge", self.n - 1 - s)), "the row exchanged into place is one not done yet")
        i = P(var("i"))
        H = lits(self.at(G, i), ("ge", r - 1 - i))
        k = P(var("k"))
        if H is not None:
            K = lits(H, ("ge", k), ("ge", self.n - 1 - k))
            need(under(K, [], lambda K: holds(K, req(cell(p2, i, k, K), cell(self.p, i, k, K)))), "earlier rows of the transformation are unchanged")
        H = self.at(G, i, lo=r + 1)

        def others(K):
            w = self.moved(K, i, s)

            def own(X, rows, w, s):
                mine = [c for x, c in rows if holds(X, eq(x, w))]
                need(len(mine) == 1 and holds(X, rne(mine[0])), "every other row keeps its own part")
                need(all(holds(X, eq(x, w)) or holds(X, eq(x, s)) for x, c in rows), "only multiples of the pivot row are added")
                return True
            self.same_op(K, i, p2, b2, own, "other rows", (P(w), s))
            return True
        need(under(H, [(i, s)], others), "other rows")
        self.eliminated(o, b2, s)


def form_parts(S, v):
    v = force(v, S.types)
    f = dict(zip(field_names(S, v.path), v.fields))
    return M(S, f["p"]), M(S, f["b"]), f["original"]


def l08(S):
    row_echelon(S)
    to_rref(S)


def row_echelon(S):
    r = the(S, "Mat", None, "row_echelon")
    if r is None:
        return
    fn = label(r)
    F, ins = mat_inputs(S, r)
    A = ins[0]
    args, store, types = S.inargs
    outs, hs = heads(S, r, args, store, types, F)
    if outs is None or S.peel is not None:
        return
    what = ["every step applies one invertible row operation to the transformation and the form alike, and keeps the form in echelon form",
            "the loop ends when no row or column is left, with the state it has", "never panics"]
    why = "no loop carries the form"
    for h in hs:
        ms = h.mats()
        bl = [lf for lf, m in ms if lf.init == A.seq]
        pl = [lf for lf, m in ms if lf.init != A.seq]
        if len(bl) != 1 or len(pl) != 1:
            continue
        X = RowOps(S, h, A, bl[0], pl[0])
        for X.rl, X.cl in X.pairs():
            X.r, X.c = P(X.rl.hv), P(X.cl.hv)
            try:
                need(lf_init_identity(S, pl[0], A, h.L.F0), "the transformation starts as the identity")
                for o in h.L.backs:
                    X.preserved(o)
                S.proved(fn, what[0])
                form_exit(S, fn, what, X, outs, args[0])
                return
            except Attempt as e:
                why = str(e)
            except (Undecided, RecursionError) as e:
                why = "analysis: %s" % e

    def wrong(w, o):
        if o.kind != "ret":
            return True
        p, b, orig = form_parts(S, o.val)
        return not good_form(wmat(w, p), wmat(w, b), wmat(w, A), False)
    refuted(S, fn, what[0], why, F, outs, wrong)


def good_form(p, b, a, reduced):
    """p invertible, p a = b, b in (reduced) echelon form"""
    n = a[0]
    if p[:2] != (n, n) or b[:2] != a[:2] or any(len(x[2]) != x[0] * x[1] for x in (p, b, a)):
        return False
    return matmul(p, a) == b and echelon(b, reduced) and det([p[2][i * n:(i + 1) * n] for i in range(n)]) != 0


def det(rows):
    rows = [[Fraction(x) for x in r] for r in rows]
    d = Fraction(1)
    for c in range(len(rows)):
        p = next((i for i in range(c, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            return 0
        if p != c:
            rows[c], rows[p], d = rows[p], rows[c], -d
        d *= rows[c][c]
        for i in range(c + 1, len(rows)):
            f = rows[i][c] / rows[c][c]
            rows[i] = [x - f * y for x, y in zip(rows[i], rows[c])]
    return d


def form_exit(S, fn, what, X, outs, original):
    for o in outs:
        try:
            if o.kind != "ret":
                ok = contradictory(o.facts)
                if not ok:
                    H = with_products(o.facts)
                    ok = H is None or contradictory(H)
                (S.proved if ok else lambda f, w: S.undecided(f, w, o.msg))(fn, what[2])
                continue
            p, b, orig = form_parts(S, o.val)
            need(b.R == X.n and b.C == X.m and p.R == X.n and p.C == X.n, "shape of the result")
            last_state = b.seq == X.b.seq and p.seq == X.p.seq
            untouched = b.seq == X.ul.init and p.seq == X.pl.init and holds(o.facts, ("ge", X.few - X.n))
            need(last_state or untouched, "the form of the last state")
            need(orig == original, "the original matrix is the one given")
            need(X.finished(o) if hasattr(X, "finished") else ended(X, o), "the loop ends too early")
            S.proved(fn, what[1])
        except Attempt as e:
            S.undecided(fn, what[1], str(e))


class Back(RowOps):
    """clearing upwards: the rows are taken from the last to the second; a row without nonzero entry changes
    nothing; otherwise multiples of it are added to the rows above so that the column of its first nonzero entry
    is cleared there (the entry is one)"""

    def __init__(self, S, head, b0, bl, pl):
        self.S, self.h, self.A, self.ul, self.pl = S, head, b0, bl, pl
        self.n, self.m = b0.R, b0.C
        d = dict((l.id, m) for l, m in head.mats())
        self.u = self.b = d[bl.id]
        self.p = d[pl.id]
        self.few = P(1)

    def preserved(self, o):
        G = lits(o.facts, ("ge", self.t))
        if G is None or contradictory(G):
            return
        t2 = self.h.after(self.tl, o)
        need(isinstance(t2, Poly) and holds(G, eq(t2, self.t + 1)), "the rows are taken one by one")
        r = self.n - 1 - self.t
        need(holds(G, ("ge", r)), "a row of the matrix")
        p2, b2 = self.h.mat_after(self.pl, o), self.h.mat_after(self.ul, o)
        need(p2.R == self.n and p2.C == self.n and b2.R == self.n and b2.C == self.m, "shape")
        i, j, k = P(var("i")), P(var("j")), P(var("k"))
        if p2.seq == self.p.seq and b2.seq == self.b.seq:
            H = self.at(G, None, j)
            need(H is None or holds(H, req(cell(self.b, r, j, H))), "a row that is left out is zero")
            return
        H = lits(self.at(G, i, j, lo=r), ("ge", k), ("ge", self.n - 1 - k))
        need(under(H, [], lambda K: holds(K, req(cell(b2, i, j, K), cell(self.b, i, j, K)), req(cell(p2, i, k, K), cell(self.p, i, k, K)))),
             "the rows from this one on are unchanged")
        H = lits(self.at(G, i), ("ge", r - 1 - i))
        cols = []

        def own(X, rows, i, r):
            mine = [c for x, c in rows if holds(X, eq(x, i))]
            rest = [(x, c) for x, c in rows if not holds(X, eq(x, i))]
            need(len(mine) == 1 and holds(X, req(mine[0], ONE)) and all(holds(X, eq(x, r)) for x, c in rest) and len(rest) <= 1, "multiples of the row are added")
            if not rest:
                cols.append((X, None))
                return True
            a = (-rest[0][1]).single()
            need(a is not None and a.kind == "x" and a.args[0][:2] == ("el", self.b.seq.key), "the factor is an entry of the row above")
            cols.append((X, a.args[0][2] - i * self.m))
            return True
        if H is None or contradictory(H):
            return
        self.same_op(H, i, p2, b2, own, "rows above", (i, r))
        cs = {c for _, c in cols}
        need(len(cs) == 1 and None not in cs, "one column is cleared")
        c = cs.pop()
        need(holds(G, ("ge", c), ("ge", self.m - 1 - c)), "a column of the matrix")
        need(holds(G, rne(cell(self.b, r, c, G))), "the column of a nonzero entry")
        K = lits(self.at(G, None, j), ("ge", c - 1 - j))
        need(K is None or holds(K, req(cell(self.b, r, j, K))), "the first nonzero entry of the row")

    def finished(self, o):
        for e in self.h.L.outs:
            if e.kind != "ret" or e.val[0] == "back":
                continue
            G = lits(e.facts, ("ge", self.t), ("ge", self.n - 2 - self.t))
            if not (G is None or contradictory(G)):
                return False
            if self.h.mat_after(self.ul, e).seq != self.b.seq or self.h.mat_after(self.pl, e).seq != self.p.seq:
                return False
        return True


def form_inputs(S, r):
    """explicit arguments with a form: p square with as many rows as b"""
    F, ins = mat_inputs(S, r)
    args, store, types = S.inargs
    v = args[0]
    root = None
    if isinstance(v, RefV):
        root = v.root
        v = store[root]
    v = force(v, S.types)
    p, b, orig = form_parts(S, v)
    names = field_names(S, v.path)
    f = dict(zip(names, v.fields))
    f["p"] = resized(S, f["p"], b.R, b.R)
    v = AdtV(v.path, v.variant, [f[k] for k in names])
    if root is not None:
        store[root] = v
    else:
        args[0] = v
    o = None
    if isinstance(orig, RefV):
        store[orig.root] = resized(S, store[orig.root], b.R, b.C)
        o = M(S, store[orig.root])
    return F, M(S, f["p"]), b, o


def resized(S, v, R, C):
    """the input matrix v with R rows and C columns"""
    v = force(v, S.types)
    names = field_names(S, v.path)
    f = dict(zip(names, v.fields))
    e = force(f["entries"], S.types)
    f.update(entries=SymSeq(e.key, e.ety, R * C), rows=R, cols=C)
    return AdtV(v.path, v.variant, [f[k] for k in names])


def to_rref(S):
    r = next((x for x in S.prog.roots if x["name"] == "to_rref"), None)
    if r is None:
        S.violate("to_rref", "anchor", "the public function this property is stated for is not in the crate any more")
        return
    fn = label(r)
    F, p0, b0, orig = form_inputs(S, r)
    args, store, types = S.inargs
    outs, hs = heads(S, r, args, store, types, F)
    if outs is None or S.peel is not None:
        return
    what = ["every step adds multiples of one row to the rows above it, to the transformation and the form alike, and clears the column of its pivot",
            "the loop ends when every row is done, with the state it has", "never panics"]
    why = "no loop carries the form"
    for h in hs:
        ms = h.mats()
        bl = [lf for lf, m in ms if lf.init == b0.seq]
        pl = [lf for lf, m in ms if lf.init == p0.seq]
        if len(bl) != 1 or len(pl) != 1:
            continue
        X = Back(S, h, b0, bl[0], pl[0])
        for X.tl in [lf for lf in h.leaves if lf.kind == "num" and isinstance(lf.init, Poly) and not lf.init.t]:
            X.t = P(X.tl.hv)
            try:
                for o in h.L.backs:
                    X.preserved(o)
                S.proved(fn, what[0])
                v = force(args[0], S.types)
                form_exit(S, fn, what, X, outs, form_parts(S, v)[2])
                return
            except Attempt as e:
                why = str(e)
            except (Undecided, RecursionError) as e:
                why = "analysis: %s" % e

    def prepare(w):
        put_form(w, p0, b0, orig, False)

    def wrong(w, o):
        if o.kind != "ret":
            return True
        p, b, _ = form_parts(S, o.val)
        return not good_form(wmat(w, p), wmat(w, b), wmat(w, b0), True)
    refuted(S, fn, what[0], why, F, outs, wrong, prepare)


def put_num(w, p, v):
    a = p.single()
    if a is not None:
        w.env[a] = v


def put_form(w, p, b, orig, reduced):
    """a form as the elimination makes it: p the identity, b in echelon form"""
    rng = w.rng
    big = 9 if rng.random() < 0.25 else 5
    n, m = rng.randint(1, big), rng.randint(1, big)
    for x, r, c in ((p, n, n), (b, n, m)) + (((orig, n, m),) if orig is not None else ()):
        put_num(w, x.R, r)
        put_num(w, x.C, c)
    e = [[0] * m for _ in range(n)]
    cols = sorted(rng.sample(range(m), rng.randint(0, min(n, m))))
    for i, c in enumerate(cols):
        e[i][c] = 1
        for j in range(c + 1, m):
            e[i][j] = rng.choice((0, 0, 1, -1, 2, 3, -2))
    if reduced:
        for i, c in enumerate(cols):
            for k in range(i):
                e[k][c] = 0
    flat = [x for row in e for x in row]
    w.state[b.seq.key] = flat
    w.state[p.seq.key] = [1 if i == j else 0 for i in range(n) for j in range(n)]
    if orig is not None:
        w.state[orig.seq.key] = list(flat)


def lu_wrong(S, w, o, A):
    """the outcome is not a factorisation of A (on a valuation)"""
    if o.kind != "ret":
        return True
    v = force(o.val, S.types)
    f = dict(zip(field_names(S, v.path), v.fields))
    a = wmat(w, A)
    P_, L_, U_ = (wmat(w, M(S, f[x])) for x in "plu")
    n = a[0]
    if (P_[0], P_[1], L_[0], L_[1], U_[0], U_[1]) != (n, n, n, n, n, a[1]):
        return True
    if any(len(x[2]) != x[0] * x[1] for x in (P_, L_, U_)):
        return True
    if any(x not in (0, 1) for x in P_[2]) or any(sum(P_[2][i * n:(i + 1) * n]) != 1 for i in range(n)) or any(sum(P_[2][i::n]) != 1 for i in range(n)):
        return True
    if any(L_[2][i * n + j] != 0 for i in range(n) for j in range(i + 1, n)) or any(L_[2][i * n + i] == 0 for i in range(n)):
        return True
    return not (matmul(P_, a) == matmul(L_, U_) and echelon(U_))


CHECKS = {"L07": l07, "L08": l08}
