"""Buchberger's algorithm: the list of generators as a typestate.

The whole algorithm is explored with division and S-polynomials replaced by their contracts (their own obligations
are taken along): the remainder nf(f, G) of f by the list G, and spol(f, g).  The algorithm then is a chain of loops
over one list of ring elements.  What is known of the list (a set of facts out of a fixed vocabulary, see `Known`)
is carried from loop to loop; inside a loop the largest subset kept by every way through the body is taken.  The
rules that say what a change of the list keeps are lemmas of commutative algebra, stated at `Chain.kept`."""
import itertools
from fractions import Fraction
from .poly import *
from .elim import refuted
from ..polyval import PV
from ..witness import Reject, WORK


def nf(f, g):
    return P(sym("nf", (f, g), "Pol"))


def spol(f, g):
    return P(sym("spol", (f, g), "Pol"))


def list_of(ex, ctx, v):
    for _ in range(8):
        if isinstance(v, RefV):
            v = ctx.force(ctx.load(v))
        elif isinstance(v, AdtV) and len(v.fields) == 1:
            v = ctx.force(v.fields[0])
    if not isinstance(v, Seq):
        raise Undecided("not a list of divisors: %r" % (v,))
    return v


def basis_contracts(S, M):
    out = {}
    for r in [the(S, "Computer", None, "divide")]:
        q = S.types.T[ret_type(S, r)]["args"][1] if "args" in S.types.T[ret_type(S, r)] else -1

        def divide(ex, ctx, fn, args, q=q):
            f, g = deref(ex, ctx, args[0]), list_of(ex, ctx, args[1])
            if isinstance(f, AdtV):
                f = ctx.prog.ring.close(ctx, ctx.force(f.fields[0]))
            return TupV([nf(f, g), SymV(("quotients", f, g), q)])
        out[r["key"]] = divide
    for r in [the(S, "Computer", None, "try_reduce")]:
        def reduce(ex, ctx, fn, args):
            f, g = (deref(ex, ctx, x) for x in args)
            if ctx.testl(req(f)) or ctx.testl(req(g)):
                return none()
            return some(spol(f, g))
        out[r["key"]] = reduce
    return {k: M.recorded(k, f) for k, f in out.items()}


# ------------------------------------------------------------------------------------- values
def wlead_(w, p):
    """(coefficient, exponents) of the leading term"""
    return max(((c, m) for m, c in PV.of(p).items()), key=lambda t: polyval.rank(t[1], w.ordering))


def wdivides(a, b):
    return all(x <= y for x, y in zip(a, b))


def wmono(c, m):
    return PV.make({tuple(m): Fraction(c)})


def wnf(w, f, gs):
    r, n = 0, 0
    hs = [(g, wlead_(w, g)) for g in gs if g != 0]
    while f != 0:
        n += 1
        WORK[0] += 10
        if n > 400 or len(PV.of(f)) > 60:
            raise Reject()
        c, m = wlead_(w, f)
        if max(abs(Fraction(c).numerator), Fraction(c).denominator) > 10 ** 12:
            raise Reject()
        for g, (d, k) in hs:
            if wdivides(k, m):
                f = f - wmono(Fraction(c) / d, [x - y for x, y in zip(m, k)]) * g
                break
        else:
            t = wmono(c, m)
            r, f = r + t, f - t
    return r


def wspol(w, f, g):
    if f == 0 or g == 0:
        raise Reject()
    (c, m), (d, k) = wlead_(w, f), wlead_(w, g)
    l = [max(x, y) for x, y in zip(m, k)]
    return wmono(Fraction(1) / c, [x - y for x, y in zip(l, m)]) * f - wmono(Fraction(1) / d, [x - y for x, y in zip(l, k)]) * g


def wgroebner(w, gs):
    gs = [g for g in gs if g != 0]
    return all(wnf(w, wspol(w, gs[i], gs[j]), gs) == 0 for i in range(len(gs)) for j in range(i))


def wcomplete(w, gs):
    gs = [g for g in gs if g != 0]
    todo = [(i, j) for i in range(len(gs)) for j in range(i)]
    while todo:
        i, j = todo.pop()
        r = wnf(w, wspol(w, gs[i], gs[j]), gs)
        if r != 0:
            todo += [(len(gs), k) for k in range(len(gs))]
            gs.append(r)
            if len(gs) > 14:
                raise Reject()
    return gs


def wsame_ideal(w, a, b):
    a, b = [x for x in a if x != 0], [x for x in b if x != 0]
    A, B = wcomplete(w, a), wcomplete(w, b)
    return all(wnf(w, x, B) == 0 for x in a) and all(wnf(w, x, A) == 0 for x in b)


VALUES_OF = {"nf": lambda w, a: wnf(w, w.num(a.args[0]), list(w.seq(a.args[1]))),
             "spol": lambda w, a: wspol(w, w.num(a.args[0]), w.num(a.args[1]))}


# ------------------------------------------------------------------------------------- facts of a list
def dead(F):
    return F is None or contradictory(F)


def instance(F, fa, vals, n):
    """the cases of the forall `fa` at the values (None: it says nothing of them); a pair (a, b) of positions
    below n stands for the number a*n+b below n*n"""
    vs, cases = fa
    m, s = {}, Subst({})
    for (v, lo, hi), x in zip(vs, vals):
        lo, hi = P(s.any(lo)), P(s.any(hi))
        if isinstance(x, tuple):
            if lo.t or hi != n * n:
                return None
            m.update({v: x[0] * n + x[1], quot(P(v), n).single(): x[0], rem(P(v), n).single(): x[1]})
        else:
            if F.decide(ge(x - lo)) is not True or F.decide(ge(hi - 1 - x)) is not True:
                return None
            m[v] = x
        s = Subst(m)
    return [[norm_lit(s.any(l)) for l in c] for c in cases]


def everywhere(F, vals, n, ok, most=3):
    """ok(G) in every case G of what F says of all positions, at the positions vals"""
    if dead(F) or ok(F):
        return True
    known = []
    pairs = [(a, b) for a, b in itertools.permutations(vals[:2], 2)]
    for fa in F.foralls:
        k = len(fa[0])
        tries = list(itertools.permutations(vals, k)) if k <= len(vals) else []
        if k == 1:
            tries += [(p,) for p in pairs]
        if k == 2 and len(vals) > 2:
            tries += [(p, vals[2]) for p in pairs]
        for c in tries:
            K = instance(F, fa, c, n)
            if K is not None and K not in known:
                known.append(K)

    def go(F, rest, depth):
        if dead(F) or ok(F):
            return True
        if depth == 0:
            return False
        for i, K in enumerate(rest):
            H = [x for x in (F.add_all(c) for c in K) if not dead(x)]
            if len(H) > 1 and len(H) == len(K) and depth < 2:
                continue
            if all(go(x, rest[:i] + rest[i + 1:], depth - 1) for x in H):
                return True
        return False
    return go(F, known, most)


NZ, MIN, RED, MONIC, GB, IDEAL = "nonzero", "minimal", "interreduced", "monic", "Groebner", "ideal"


class Chain:
    """the loops over the list and what is known of it"""

    def __init__(self, S, M):
        self.S, self.T = S, S.types
        self.r = the(S, "Computer", None, "buchberger_algorithm")
        self.fn = label(self.r)
        self.F, self.ins = inputs_of(S, self.r)
        self.loops = []
        S.loops = self.loops
        C = basis_contracts(S, M)

        def setup(ex):
            ex.loophook = self.loops.append
        old = dict(M.contracts)
        M.contracts.update(C)
        try:
            self.outs = outcomes(S, M, self.r, self.F, setup=setup) or ()
        finally:
            M.contracts.clear()
            M.contracts.update(old)
        self.g0 = force(self.ins[0], self.T)
        self.known = {}
        self.notes = []
        if isinstance(self.g0, SymSeq):
            self.known[self.g0.key] = {IDEAL}
        n = min((len(L.lid) for L in self.loops if L.open), default=0)
        self.tops = [L for L in self.loops if L.open and len(L.lid) == n]
        self.grown = set()
        for k in dict.fromkeys(L.lid for L in self.tops):
            self.loop([L for L in self.tops if L.lid == k])

    def final(self, o):
        v = o.store.get(("A", "a0"))
        v = force(v, self.T)
        if not isinstance(v, Seq):
            raise Undecided("no list is left")
        return v

    # ---- elements
    def at(self, X, i, F):
        x = force(pure_get(X, i, F, self.T), self.T)
        if not isinstance(x, Poly):
            raise Undecided("an element of %r" % (X,))
        return x

    def lists(self, L):
        return [lf for lf in L.W.leaves.values() if lf.kind == "seq" and isinstance(lf.hv, SymSeq) and kind_of(self.S, lf.hv.ety) == "Polynomial"]

    def counters(self, L):
        return [P(lf.hv).single() for lf in L.W.leaves.values() if lf.kind == "num" and P(lf.hv).single() is not None and P(lf.hv).single().sort in ("usize", "nat")]

    # ---- properties that are shown element by element
    def shown(self, what, X, F, at=None):
        """does `what` hold of X by what F says of its elements?"""
        n = X.n
        i, j, t = P(var("i")), P(var("j")), P(var("k"))
        if what == NZ:
            G = F.add_all([ge(i), ge(n - 1 - i)])
            return everywhere(G, [i], n, lambda K: K.decide(("rne", self.at(X, i, K))) is True)
        if what in (MIN, RED):
            G = F.add_all([ge(i), ge(n - 1 - i), ge(j), ge(n - 1 - j), ("ne", i - j)])
            if dead(G):
                return True
            g, h = self.at(X, i, G), self.at(X, j, G)
            vals, k = [i, j], lead(h)
            G = G.add_all([("rne", g), ("rne", h)])
            if what == RED:
                k = t
                if dead(G):
                    return True
                G = G.add_all([ge(t), ge(self.terms(h) - 1 - t)])
                vals = [i, j, t]
            q = term_part(h, k, 1) * inv_poly(term_part(g, lead(g), 1))
            return everywhere(G, vals, n, lambda K: K.decide(("b", ("nn", q), False)) is True)
        if what == GB:
            return self.pairs(X, n, F)
        return False

    def terms(self, p):
        return P(sym("len", (("terms", p),), "usize"))

    def pairs(self, X, n, F):
        """the remainders of the S-polynomials of the pairs of elements below n are zero"""
        i, j = P(var("i")), P(var("j"))
        G = F.add_all([ge(j), ge(i - 1 - j), ge(n - 1 - i), ge(X.n - 1 - i)])
        if dead(G):
            return True

        def ok(a, b):
            def f(K):
                g, h = self.at(X, a, K), self.at(X, b, K)
                return any(K.decide(l) is True for l in (req(nf(spol(g, h), X)), req(nf(spol(h, g), X)), req(g), req(h)))
            return f
        if everywhere(G, [i, j], X.n, ok(i, j)):
            return True
        # the last one apart
        k = n - 1
        H = F.add_all([ge(j), ge(k - 1 - j), ge(X.n - 1 - k), ge(k)])
        if not everywhere(H, [k, j], X.n, ok(k, j)):
            return False
        H = G.add(ge(k - 1 - i))
        return everywhere(H, [i, j], X.n, ok(i, j))

    # ---- what a change of the list keeps
    def unit(self, v, g, F):
        """v = u*g for a nonzero coefficient u: u"""
        if not isinstance(v, Poly) or g.single() is None:
            return None
        u = v * inv_poly(g)
        if len(u.t) != 1 or any((a.args[0].single() or a if a.kind == "inv" else a).sort != "F" for a, _ in u.t[0][0]):
            return None
        for a, e in u.t[0][0]:
            if e > 0 and a.kind != "inv" and F.decide(("rne", P(a))) is not True:
                return None
        return u

    def lead_coef(self, g):
        return term_part(g, lead(g), 0)

    def of(self, X, F, want=(NZ, RED, MIN, GB)):
        """the properties X has"""
        have = set(self.kept(X, F))
        for w in (NZ, RED, MIN, GB):
            if w not in have and w in want:
                try:
                    if self.shown(w, X, F):
                        have.add(w)
                except Undecided:
                    pass
        if RED in have:
            have.add(MIN)
        return have

    def kept(self, X, F):
        """Lemmas (over a field, with an admissible order; g, h elements of the list, LT leading term):
        - multiplying elements by units, or reordering, keeps everything but `monic`;
        - leaving out zero elements keeps the ideal;
        - adding nf(h, G), h in the ideal, keeps the ideal;
        - replacing g by nf(g, G - g) keeps the ideal, keeps a Groebner basis one, and where no LT of the others
          divides LT(g) keeps LT(g) (so it keeps `minimal`, and with it `nonzero` and `monic`);
        - leaving out g where LT(h) divides LT(g) for another h keeps a Groebner basis, and the ideal of one."""
        if isinstance(X, SymSeq):
            k = set(self.known.get(X.key, ()))
            for p in list(k):
                if isinstance(p, tuple) and F.decide(ge(P(p[1]) - X.n)) is True:
                    k.add(p[0])
            return k
        if isinstance(X, SortSeq) and X.order != ("set",):
            return {p for p in self.kept(X.base, F) if not isinstance(p, tuple)}
        if isinstance(X, UpdSeq):
            k = self.kept(X.base, F)
            g = self.at(X.base, X.idx, F)
            v = force(X.val, self.T)
            u = self.unit(v, g, F)
            if u is not None:
                return {p for p in k if p != MONIC and not isinstance(p, tuple) or p == MONIC and u == ONE}
            return set()
        if isinstance(X, (CompSeq, FiltSeq)):
            return self.elementwise(X, F)
        if isinstance(X, RemSeq):
            k = self.kept(X.base, F)
            out = k & {NZ, MIN, RED, MONIC}
            if self.redundant(X, F, k):
                out |= k & {GB, IDEAL}
            return out
        if isinstance(X, CatSeq):
            return self.extended(X, F)
        if isinstance(X, SubSeq):
            return self.kept(X.base, F) & {NZ, MIN, RED, MONIC}
        return set()

    def elementwise(self, X, F):
        m = X.n if isinstance(X, CompSeq) else X.m
        i = P(DV)
        s = Subst({X.bv: i})
        base = None
        nz, monic = True, True
        drops = X.drop if isinstance(X, FiltSeq) else ()
        for ls, v in X.cases:
            v = force(s.any(v), self.T)
            G = F.add_all([ge(i), ge(m - 1 - i)] + [norm_lit(s.any(l)) for l in ls])
            if dead(G):
                continue
            found = None
            for a in fv(v):
                if a.kind == "x" and a.sort == "Pol" and isinstance(a.args[0], tuple) and a.args[0][0] == "el" and a.args[0][2] == i:
                    found = (a.args[0][1], a)
            if found is None:
                return set()
            b = self.base_of(found[0], F)
            if b is None or base is not None and base.key != b.key:
                return set()
            base = b
            nz = nz and self.not_zero(v, G)
            u = self.unit(v, P(found[1]), G)
            if u is None:
                return set()
            if u != inv_poly(self.lead_coef(P(found[1]))):
                monic = False if u != ONE else (monic and G.decide(req(self.lead_coef(P(found[1])), ONE)) is True)
        if base is None or base.n != m:
            return set()
        k = self.kept(base, F)
        out = {p for p in k if not isinstance(p, tuple) and p != MONIC}
        for ls in drops:
            G = F.add_all([ge(i), ge(m - 1 - i)] + [norm_lit(s.any(l)) for l in ls])
            if not dead(G) and G.decide(req(self.at(base, i, G))) is not True:
                out -= {GB, IDEAL}
        if nz:
            out.add(NZ)
        if monic and NZ in out:
            out.add(MONIC)
        if not drops and all(force(s.any(v), self.T) == self.at(base, i, F) for _, v in X.cases) and MONIC in k:
            out.add(MONIC)
        return out

    def base_of(self, key, F):
        for x in [self.g0] + [lf.hv for L in self.tops for lf in self.lists(L)]:
            if isinstance(x, SymSeq) and x.key == key:
                return x
        return None

    def redundant(self, X, F, k):
        """the leading term of the element left out is divisible by that of another one"""
        B = X.base
        if GB not in k or not isinstance(B, SymSeq):
            return False
        g = self.at(B, X.idx, F)
        m = term_part(g, lead(g), 1)
        for l in F.lits:
            if l[0] == "b" and isinstance(l[1], tuple) and l[1][0] == "nn" and l[2] is True:
                for a in fv(l[1][1]):
                    t = term_atom(a)
                    if t is None or t[1] != lead(t[0]) or t[2] != 1:
                        continue
                    h = t[0].single()
                    if h is None or h.kind != "x" or not isinstance(h.args[0], tuple) or h.args[0][0] != "el" or h.args[0][1] != B.key:
                        continue
                    j = h.args[0][2]
                    if l[1][1] == m * inv_poly(P(a)) and F.decide(("ne", j - X.idx)) is True and F.decide(("rne", t[0])) is True:
                        return True
        return False

    def vanishes(self, p, inside, keys):
        """p is in the ideal: it is zero when the elements of the list are"""
        q = self.under(p, inside)
        if q is None:
            return False
        m = {a for t, _ in q.t for a, _ in t if a.kind == "x" and isinstance(a.args[0], tuple) and a.args[0][0] == "el" and a.args[0][1] in keys and a.sort == "Pol"}
        return all(any(x in m and e > 0 for x, e in t) for t, _ in q.t)

    def under(self, p, inside):
        """p up to elements of the ideal: remainders by sublists stand for what was divided, S-polynomials of
        elements for zero"""
        out = ZERO
        for mono_, c in p.t:
            t = P(c)
            for a, e in mono_:
                x = P(a)
                if a.kind == "nf" and e == 1:
                    if not inside(a.args[1]):
                        return None
                    x = self.under(a.args[0], inside)
                elif a.kind == "spol" and e == 1:
                    f, g = (self.under(y, inside) for y in a.args)
                    if f is None or g is None:
                        return None
                    # multiples of both by terms
                    x = P(sym("mult", (a, 0), "Pol")) * f + P(sym("mult", (a, 1), "Pol")) * g
                if x is None:
                    return None
                t = t * (x if e == 1 else power(P(a), e) if e > 0 else inv_poly(power(P(a), -e)))
            out = out + t
        return out

    def extended(self, X, F):
        head, tail = X.segs[0], X.segs[1:]
        if len(tail) != 1 or not isinstance(tail[0], LitSeq):
            return set()
        items = [force(x, self.T) for x in tail[0].items]
        if any(not isinstance(x, Poly) for x in items):
            return set()
        k = self.kept(head, F)
        out = set()
        if NZ in k and all(self.not_zero(x, F) for x in items):
            out.add(NZ)
        if isinstance(head, SymSeq):
            inside = lambda d: d == head
            if IDEAL in k and all(self.vanishes(x, inside, {head.key}) for x in items):
                out.add(IDEAL)
                if GB in k:
                    out.add(GB)
            return out
        if isinstance(head, RemSeq) and isinstance(head.base, SymSeq) and len(items) == 1:
            B, p = head.base, items[0]
            g = self.at(B, head.idx, F)
            k = self.kept(B, F)
            a = [x for x, e in p.t[0][0] if x.kind == "nf" and e == 1] if len(p.t) == 1 else []
            if len(a) == 1 and a[0].args == (g, head):
                u = self.unit(p, P(a[0]), F)
                if u is not None:
                    out |= k & {IDEAL, GB}
                    if MIN in k:
                        out |= k & {MIN, NZ}
                        if u == ONE:
                            out |= k & {MONIC}
        return out

    def not_zero(self, p, F):
        if F.decide(("rne", p)) is True:
            return True
        # a unit times something that is not zero
        if len(p.t) == 1:
            for a, e in p.t[0][0]:
                if a.sort == "Pol" and e == 1 and a.kind != "inv":
                    return self.unit(p, P(a), F) is not None and (F.decide(("rne", P(a))) is True or any(
                        l[0] == "ge" and F.decide(ge(self.terms(P(a)) - 1)) is True for l in F.lits))
        return False

    # ---- loops
    def loop(self, Ls):
        """the largest set of properties that holds at first and is kept by every step"""
        seqs, have = {}, {}
        for L in Ls:
            for lf in self.lists(L):
                k = {p for p in self.of(force(lf.init, self.T), L.F0) if not isinstance(p, tuple)}
                for a in self.counters(L):
                    s = self.leaf(L, a).init
                    if dead(L.F0.add(ge(s - 2))):
                        k.add((GB, a))
                    if dead(L.F0.add(ge(s - 1))):
                        k.add((MONIC, a))
                have[lf.hv.key] = have.get(lf.hv.key, k) & k
                seqs[lf.hv.key] = lf
        while True:
            self.known.update({key: set(k) for key, k in have.items()})
            new = {key: set(k) for key, k in have.items()}
            for L in Ls:
                for b in L.backs:
                    for lf in self.lists(L):
                        k = new[lf.hv.key]
                        drop = k - self.after(L, lf, b, k) if k else set()
                        self.notes += ["%s is not kept by a step of the loop" % (p,) for p in drop]
                        new[lf.hv.key] = k - drop
            if new == have:
                break
            have = new
        for key, lf in seqs.items():
            k = self.known[key] = set(have[key])
            for p in [p for p in k if isinstance(p, tuple)]:
                if all(o.facts.decide(ge(P(p[1]) - lf.hv.n)) is True for L in Ls for o in L.outs if o.kind == "ret" and o.val[0] != "back"):
                    k.add(p[0])

    def after(self, L, lf, b, k):
        """the properties in k the list has after the step b"""
        try:
            v = force(value_at(lf.root, lf.path, b.store, self.T), self.T)
            F = self.assume(lf, b.facts, k)
            got = self.of(v, F, k)
            return {p for p in k if (self.prefix(p, L, b, lf, v, F) if isinstance(p, tuple) else p in got)}
        except (Undecided, RecursionError, AttributeError) as e:
            self.notes.append(str(e))
            return set()

    def leaf(self, L, a):
        return next(lf for lf in L.W.leaves.values() if lf.kind == "num" and P(lf.hv).single() == a)

    def assume(self, lf, F, k):
        """the invariants that bound a part of the list"""
        X = lf.hv
        for p in sorted(k, key=repr):
            if p[0] == GB and isinstance(p, tuple):
                u, v = P(var("p")), P(var("q"))
                G = F.add_all([ge(v), ge(u - 1 - v), ge(P(p[1]) - 1 - u)]) or F
                F = F.add_forall([(u.single(), ZERO, P(p[1])), (v.single(), ZERO, u)], [[req(nf(spol(self.at(X, u, G), self.at(X, v, G)), X))]])
        return F

    def prefix(self, p, L, b, lf, X, F):
        what, a = p
        cl = self.leaf(L, a)
        n = value_at(cl.root, cl.path, b.store, self.T)
        if n is None:
            return False
        if what == GB:
            if dead(F.add(ge(n - 2))):
                return True
            return X == lf.hv and self.pairs(X, n, F)
        # monic below n
        if dead(F.add(ge(n - 1))):
            return True
        if not dead(F.add(ge(n - 2 - P(a)))):
            return False
        if X == lf.hv:
            return n == P(a) or self.monic_at(lf.hv, P(a), F)
        if isinstance(X, UpdSeq) and X.base == lf.hv and F.decide(eq(X.idx, P(a))) is True:
            g = self.at(lf.hv, X.idx, F)
            v = force(X.val, self.T)
            return isinstance(v, Poly) and v == g * inv_poly(self.lead_coef(g)) and F.decide(("rne", g)) is True
        return False

    def monic_at(self, X, i, F):
        g = self.at(X, i, F)
        if NZ in self.known.get(X.key, ()) and dead(F.add(("rne", g))):
            return True
        return F.decide(req(self.lead_coef(g), ONE)) is True


# ------------------------------------------------------------------------------------- the checks
def lists_of(w, C, o):
    return [x for x in w.seq(C.g0)], [x for x in w.seq(C.final(o))]


def wmonic(w, g):
    return g != 0 and wlead_(w, g)[0] == 1


def wreduced(w, gs):
    ls = [wlead_(w, g)[1] for g in gs if g != 0]
    return all(not wdivides(l, m) for i, l in enumerate(ls) for j, g in enumerate(x for x in gs if x != 0) if i != j for m in PV.of(g))


def chain(S, M, goals):
    """goals: (what, why not, properties wanted of the list returned, is it wrong in a valuation)"""
    C = Chain(S, M)
    for what, want, bad in goals:
        why = None
        for o in C.outs:
            if o.kind != "ret":
                continue
            try:
                got = C.of(C.final(o), o.facts, want)
                if not want <= got:
                    why = "not shown: %s" % ", ".join(sorted(map(str, want - got))) + ("; " + "; ".join(dict.fromkeys(C.notes[-3:])) if C.notes else "")
            except (Undecided, RecursionError) as e:
                why = str(e) or "not decided"
        if not C.outs:
            S.undecided(C.fn, what, "no summary")
        elif why is None:
            S.proved(C.fn, what)
        else:
            refuted(S, C.fn, what, why, C.F, C.outs, lambda w, o: o.kind == "ret" and bad(w, *lists_of(w, C, o)), extra=VALUES_OF, small=True, effort=16000000, tries=1500)
    return C


def criterion(S, M):
    """the criterion says yes exactly if the S-polynomials of all pairs of nonzero elements have remainder zero"""
    r = the(S, "Computer", None, "buchberger_criterion")
    fn = label(r)
    F, (g,) = inputs_of(S, r)
    g = force(g, S.types)
    S.loops = []

    def setup(ex):
        ex.loophook = S.loops.append
    C = Chain.__new__(Chain)
    C.S, C.T, C.known = S, S.types, {}
    old = dict(M.contracts)
    M.contracts.update(basis_contracts(S, M))
    try:
        outs = outcomes(S, M, r, F, setup=setup)
    finally:
        M.contracts.clear()
        M.contracts.update(old)
    what = "accepts exactly if every S-polynomial has remainder zero"
    why = None if outs else "no summary"
    for o in outs or ():
        if o.kind != "ret":
            continue
        try:
            v = o.val
            for yes in (True, False):
                G = o.facts.add(yes_lit(v, yes))
                if dead(G):
                    continue
                if yes and not C.pairs(g, g.n, G):
                    why = "accepts without having seen every pair"
                if not yes and not refused(S, G, g):
                    why = "refuses without a pair that has a remainder"
        except (Undecided, RecursionError) as e:
            why = str(e) or "not decided"
    if outs is None:
        return
    if why is None:
        S.proved(fn, what)
    else:
        refuted(S, fn, what, why, F, outs, lambda w, o: o.kind == "ret" and bool(w.formula(o.val)) != wgroebner(w, list(w.seq(g))), extra=VALUES_OF, small=True, effort=16000000, tries=1500)


def yes_lit(v, yes):
    f = v if yes else f_not(v)
    if f is True:
        return ge(ZERO)
    if f is False:
        return ge(P(-1))
    if isinstance(f, tuple) and f[0] == "lit":
        return f[1]
    raise Undecided("the result is not a single condition")


def refused(S, F, g):
    """there is a pair of distinct nonzero elements of which a remainder is not zero"""
    for l in F.lits:
        for a in fv(l):
            if a.kind == "nf" and a.args[1] == g and a.args[0].single() is not None and a.args[0].single().kind == "spol" and F.decide(("rne", P(a))) is True:
                ps = a.args[0].single().args
                ks = [p.single().args[0] if p.single() is not None and p.single().kind == "x" else None for p in ps]
                if all(isinstance(k, tuple) and k[0] == "el" and k[1] == g.key for k in ks) and all(F.decide(("rne", p)) is True for p in ps):
                    if F.decide(("ne", ks[0][2] - ks[1][2])) is True:
                        return True
    return False


def safe(S, C, what):
    """nothing the algorithm asks for is missing"""
    why = None
    for o in C.outs:
        if o.kind == "ret":
            continue
        F = o.facts
        for X in [C.g0] + [lf.hv for L in C.tops for lf in C.lists(L)]:
            if NZ in C.known.get(X.key, ()):
                i = P(var("i"))
                F = F.add_forall([(i.single(), ZERO, X.n)], [[("rne", C.at(X, i, F.add_all([ge(i), ge(X.n - 1 - i)]) or F))]])
        if not (contradictory(F) or any(F.decide(neg(l)) is True for l in F.lits if l[0] in ("req", "eq"))):
            why = o.msg
    if why is None:
        S.proved(C.fn, what)
    else:
        refuted(S, C.fn, what, why, C.F, C.outs, lambda w, o: o.kind != "ret", extra=VALUES_OF, small=True, effort=16000000, tries=1500)


def contracts_hold(S, wanted):
    """the obligations behind the contracts of division and S-polynomials"""
    for f in (p07, p08, p09):
        T = Suite(S.pid, S.prog, S.tier)
        T.peel = S.peel
        f(T)
        T.obl = [o for o in T.obl if o["obligation"] in wanted]
        T.violations = {k: v for k, v in T.violations.items() if any(k.endswith("|" + x) for x in wanted)}
        take(S, T, None)


IDENTITY = ("f = q1*g1 + ... + qm*gm + r", "absent only if an operand is zero", "present only if both operands are nonzero", "the S-polynomial")
REMAINDER = ("no term of the remainder is divisible by a leading term",)


def p10(S):
    with Mode(S, True) as M:
        chain(S, M, [("the list returned generates the ideal of the list given", {IDEAL}, lambda w, a, b: not wsame_ideal(w, a, b))])
    contracts_hold(S, IDENTITY)


def p11(S):
    with Mode(S, True) as M:
        criterion(S, M)
        chain(S, M, [("every S-polynomial of the list was found to have remainder zero", {GB}, lambda w, a, b: not wgroebner(w, b))])
    contracts_hold(S, IDENTITY + REMAINDER)


def p12(S):
    with Mode(S, True) as M:
        C = chain(S, M, [
            ("every element is nonzero", {NZ}, lambda w, a, b: any(x == 0 for x in b)),
            ("no term of an element is divisible by the leading term of another", {RED}, lambda w, a, b: not wreduced(w, b)),
            ("every leading coefficient is one", {MONIC}, lambda w, a, b: any(x != 0 and not wmonic(w, x) for x in b))])
        safe(S, C, "returns")
    contracts_hold(S, IDENTITY[1:] + REMAINDER)


CHECKS = {"P10": p10, "P11": p11, "P12": p12}
