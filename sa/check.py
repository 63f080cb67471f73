"""Obligations of the properties, and how they are discharged, refuted or left undecided."""
import time, sys, traceback
from .terms import *
from .terms import Atom, Poly
from .facts import *
from .values import *
from .interp import Prog, Exec, explore, Ctx, Dead, PanicEx, Budget
from . import models, loops
from .api import run, inputs, unknown
from .witness import refute, inexact


# ---------------------------------------------------------------------- formulas over value numbers
def L(l):
    return f_lit(l)


def AND(*fs):
    return f_and([f if isinstance(f, bool) or f[0] in ("lit", "and", "or", "all", "nd") else L(f) for f in fs])


def OR(*fs):
    return f_or([f if isinstance(f, bool) or f[0] in ("lit", "and", "or", "all", "nd") else L(f) for f in fs])


def ALL(var, lo, hi, f):
    return ("all", var, P(lo), P(hi), f)


_n = [0]


def var(name="v", sort="usize"):
    _n[0] += 1
    return atom("q", (name, _n[0]), sort)


def ite_in(x, seen=None):
    """an if-then-else value number occurring (outside binders) in x"""
    for a in sorted(fv(x), key=lambda a: len(a.s)):
        if a.kind == "ite" and not (a.bvl and free_bv(a)):
            return a
    return None


_FREE = {}


def free_bv(x):
    """bound variables of x that no binder inside x binds"""
    if isinstance(x, Atom):
        if x.kind == "bv":
            return frozenset((x,))
        if not x.bvl:
            return frozenset()
        r = _FREE.get(x)
        if r is None:
            r = _FREE[x] = free_bv(x.args)
        return r
    if isinstance(x, Poly):
        return frozenset().union(*[free_bv(a) for a in x.atoms()])
    if isinstance(x, tuple):
        bound = {y for y in x if isinstance(y, Atom) and y.kind == "bv"}
        for y in x:
            if isinstance(y, tuple):
                bound |= {z[0] for z in y if isinstance(z, tuple) and len(z) == 2 and isinstance(z[0], Atom) and z[0].kind == "bv"}
        return frozenset().union(*[free_bv(y) for y in x]) - bound
    if hasattr(x, "parts"):
        return free_bv(x.parts())
    return frozenset()


def expand_ites(F, f, k, depth=0):
    """prove by cases over an if-then-else occurring in f; k(F, f) proves each branch"""
    a = ite_in(f)
    if a is None:
        return False
    for ls, p in a.args:
        G = F.add_all(ls)
        if G is None:
            continue
        if not k(G, subst(f, {a: p})):
            return False
    return True


def prove(F, f, depth=0, types=None):
    """is the formula f entailed by the facts F?  (False: not shown)"""
    if F is None or f is True:
        return True
    if depth == 0:
        F = enrich(F)
        if F is None:
            return True
    if f is False:
        return contradictory(F, depth)
    k = f[0]
    if k == "and":
        return all(prove(F, x, depth) for x in f[1])
    if k == "all":
        _, v, lo, hi, g = f
        w = P(var("i", v.sort))
        G = F.add_all([("ge", w - lo), ("ge", hi - 1 - w)])
        return prove(G, subst(g, {v: w}), depth)
    if k == "or":
        fs = list(f[1])
        if any(prove(F, x, depth + 2) for x in fs):
            return True
        # assume the negation of the others
        for i, x in enumerate(fs):
            others = [y for j, y in enumerate(fs) if j != i and y[0] == "lit"]
            if len(others) < len(fs) - 1:
                continue
            G = F
            for y in others:
                G = G.add(neg(y[1])) if G is not None else None
            if prove(G, x, depth + 1):
                return True
        if depth < 3:
            return split_foralls(F, f, depth)
        return False
    if k == "lit":
        l = f[1]
        d = F.decide(l)
        if d is True:
            return True
        if d is None and l[0] != "d":
            # by contradiction
            if F.add(neg(l)) is None:
                return True
        g = rewrite(F, l)
        if g != l and depth < 12:
            return prove(F, L(g), depth + 1)
        if depth < 4 and ite_in(f) is not None:
            return expand_ites(F, f, lambda G, g: prove(G, g[0:1] + (norm_lit(g[1]),) if g[0] == "lit" else g, depth + 1))
        if depth < 2 and ite_in(tuple(F.lits)) is not None:
            a = ite_in(tuple(F.lits))
            for ls, p in a.args:
                G = F.subst(Subst({a: p}))
                G = G.add_all(ls) if G is not None else None
                if G is not None and not prove(G, subst(f, {a: p}), depth + 1):
                    return False
            return True
        if l[0] == "eq" and depth < 6:
            # equalities of polynomials over quotients by a gcd: multiply out
            q = clear_inv(l[1])
            if q != l[1]:
                return prove(F, L(("eq", q)), depth + 1)
        if depth < 3:
            return split_foralls(F, f, depth)
        return False
    raise ValueError(f)


_enr = {}


def enrich(F):
    """F with the consequences of its equalities inside other value numbers, and of its
    inequalities between exact quotients by positive numbers"""
    k = (F.lits, F.foralls)
    r = _enr.get(k)
    if r is not None:
        return r
    r = F
    for l in sorted(F.lits, key=show_lit):
        if l[0] in ("ge", "eq", "ne"):
            low = {}
            for m, _ in l[1].t:
                for a, e in m:
                    if e < 0:
                        low[a] = min(low.get(a, 0), e)
            if low and all(a.sort in ("nat", "pos", "usize") or F.decide(("ge", P(a))) for a in low):
                p = l[1]
                for a, e in low.items():
                    p = p * P(a) ** (-e)
                r = r.add((l[0], p)) if r is not None else None
        if r is not None and l[0] in ("eq", "ge", "ne"):
            g = rewrite(F, l, skip=l)
            if g != l and g is not None:
                r = r.add(g)
        if r is None:
            break
    if r is not None:
        for a in sorted(fv(tuple(r.lits)), key=lambda a: a.s):
            if a.kind == "gcd" and not (a.args[0].t and a.args[1].t):
                for p, iseq in r.axioms(a):
                    if iseq and r is not None:
                        r = r.add(("eq", p))
            if r is None:
                break
    if len(_enr) > 5000:
        _enr.clear()
    _enr[k] = r
    return r


def rewrite(F, l, skip=None):
    """use known equalities inside the arguments of value numbers"""
    at = fv(l)
    m = {}
    for k in sorted(F.lits, key=show_lit):
        if k[0] != "eq" or k == skip:
            continue
        p = subst(k[1], m)
        for a in sorted(p.atoms(), key=lambda a: (-len(a.s), a.s)):
            if a.kind in ("x", "it", "hv", "len") and a in at:
                li = p.linear_in(a)
                if li and li[0].const() in (1, -1):
                    r = -li[1] * li[0].const()
                    if a in fv(r):
                        continue
                    m = {b: subst(v, {a: r}) for b, v in m.items()}
                    m[a] = r
                    break
    if m:
        l = norm_lit(Subst(m).any(l))
    z = {}
    for a in fv(l):
        if a.kind == "pow" and not a.args[0].t and F.decide(("ge", a.args[1] - 1)):
            z[a] = ZERO
    if z:
        l = norm_lit(Subst(z).any(l))
    return l


def nonneg_atom(F, a):
    lo = INT_BOUNDS.get(a.sort, (None, None))[0]
    return (lo is not None and lo >= 0) or F.decide(("ge", P(a))) is True


def with_products(F, f=None):
    """F with consequences a linear reasoner does not see: products of an inequality with a nonnegative
    number, and bounds of quotients and remainders in a product range"""
    if F is None:
        return None
    out, seen = [], set(F.lits)
    lits = set(F.lits)
    if f is not None and not isinstance(f, bool):
        pass

    def put(l):
        l = norm_lit(l)
        t = trivial(l)
        if t is not True and l not in seen:
            seen.add(l)
            out.append(l)
            lits.add(l)
    at = fv(tuple(F.lits)) | (fv(f) if f is not None and not isinstance(f, bool) else set())
    # instances of the quantified facts at the indices that occur
    for cs in F.instances(tuple(F.lits))[:12]:
        if len(cs) == 1:
            for l in cs[0]:
                put(l)
    for a in sorted(at, key=lambda a: a.s):
        if a.kind not in ("quot", "rem") or a.bvl:
            continue
        x, b = a.args
        q, r = P(make("quot", a.args, a.sort)), P(make("rem", a.args, a.sort))
        if b.const() is not None:
            continue
        # 0 <= x < X*b: the quotient is below X
        for l in sorted(lits, key=show_lit):
            if l[0] != "ge":
                continue
            y = l[1] + x + 1            # y - 1 - x >= 0
            X = div_exact(y, b) if y.t else None
            if X is not None and F.decide(("ge", x)):
                put(("ge", X - 1 - q))
                put(("ge", b - 1))
                put(("ge", b - 1 - r))
                put(("ge", r))
                put(("ge", q))
                put(eq(x, b * q + r))
                break
    for l in sorted(lits, key=show_lit):
        if l[0] == "ge":
            g = rewrite(F, l)
            if g != l:
                put(g)
    pairs = set()
    for l in list(lits):
        if l[0] in ("ge", "eq", "ne") and isinstance(l[1], Poly):
            for m, _ in l[1].t:
                if len(m) == 2 and all(e == 1 for _, e in m):
                    pairs.add((m[0][0], m[1][0]))
                    pairs.add((m[1][0], m[0][0]))
    lin = [l for l in sorted(lits, key=show_lit) if l[0] == "ge" and all(len(m) <= 1 and all(e == 1 for _, e in m) for m, _ in l[1].t)]
    n = 0
    for a, b in sorted(pairs, key=lambda p: (p[0].s, p[1].s)):
        if not nonneg_atom(F, b):
            continue
        for l in lin:
            if a in l[1].atoms() and n < 60:
                n += 1
                put(("ge", l[1] * P(b)))
    if not out:
        return F
    return F.add_all(out)


def split_foralls(F, f, depth):
    """case split over an instance of a quantified fact with several cases"""
    if not F.foralls:
        return False
    for cs in F.instances(f)[:4]:
        if len(cs) < 2 or len(cs) > 6:
            continue
        if all(prove(F.add_all(c), f, depth + 2) for c in cs):
            return True
    return False


def contradictory(F, depth=0):
    if any(trivial(l) is False for l in F.lits):
        return True
    for l in F.lits:
        G = Facts(F.lits - {l}, F.foralls)
        if l[0] != "d" and G.decide(l) is False:
            return True
    return False


def shift0(x):
    """sums and products over ranges with lower bound 0"""
    m = {}
    for a in fv(x):
        if a.kind in ("sum", "prod") and a.args[0].t:
            lo, hi, bv, body = a.args
            m[a] = make(a.kind, (ZERO, hi - lo, bv, subst(body, {bv: P(bv) + lo})), a.sort)
    return subst(x, m) if m else x


class Suite:
    """the obligations of one property"""

    def __init__(self, pid, prog, tier="quick"):
        self.pid, self.prog, self.tier = pid, prog, tier
        self.types = prog.types
        self.obl = []
        self.functions = {}
        self.violations = {}
        self.cache = {}
        self.extra = {}
        self.peel = None        # not None: only look for counterexamples, loops without a summary cut off
        self.named = False      # searches are named by their condition (positions found twice are the same)
        self.t0 = time.time()

    # ------------------------------------------------------------------ anchors
    def roots(self, path):
        return [r for r in self.prog.roots if r["path"] == path]

    def anchor(self, path):
        """a public item the property is about; it is a violation if it is gone"""
        r = self.roots(path)
        if not r:
            self.violate(path, "anchor", "the function the property is stated for is not in the crate any more")
            return None
        return r[0]

    # ------------------------------------------------------------------ running the analysis
    def explore(self, path, contracts=None, args=None, store=None, facts=None, opts=None, tag="", root=None, setup=None, budget=None, then=None):
        """outcomes of the function, or None (the analysis cannot summarise it)"""
        root = root or self.anchor(path)
        if root is None:
            return None
        ck = (path, tag)
        if tag is not None and ck in self.cache:
            return self.cache[ck]
        if not self.named:
            # a function whose searches have to be recognised is summarised with the searches named
            mark = len(self.obl)
            outs = self._explore(path, root, ck, contracts, args, store, facts, opts, tag, setup, budget, then)
            if outs is not None or "membership" not in self.obl[-1].get("why", ""):
                return outs
            self.named = True
            del self.obl[mark:]
            try:
                outs = self._explore(path, root, ck, contracts, args, store, facts, opts, tag, setup, budget, then)
            finally:
                self.named = False
            return outs
        return self._explore(path, root, ck, contracts, args, store, facts, opts, tag, setup, budget, then)

    def _explore(self, path, root, ck, contracts, args, store, facts, opts, tag, setup, budget, then):
        ex = Exec(self.prog, contracts)
        ex.maxloops = 4000
        ex.unnamed = not self.named
        if setup:
            setup(ex)
        t = time.time()
        if self.peel is not None:
            opts = dict(opts or {}, peel=self.peel)
        try:
            outs = run(ex, root["key"], args, store, facts, opts, budget, then=then)
            self.functions[path + (":" + tag if tag else "")] = {"paths": len(outs), "s": round(time.time() - t, 2)}
        except (Undecided, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError, ZeroDivisionError) as e:
            self.undecided(path, "summary", "%s: %s" % (type(e).__name__, str(e)[:200]))
            if "-t" in sys.argv:
                traceback.print_exc()
            outs = None
        self.cache[ck] = outs
        return outs

    # ------------------------------------------------------------------ verdicts
    def undecided(self, fn, what, why):
        self.obl.append({"function": fn, "obligation": what, "status": "undecided", "why": why})

    def proved(self, fn, what):
        self.obl.append({"function": fn, "obligation": what, "status": "proved"})

    def violate(self, fn, what, why, witness=None):
        key = "%s|%s" % (fn, what)
        if key not in self.violations:
            self.violations[key] = {"function": fn, "rule": what, "why": why, "witness": witness}
        self.obl.append({"function": fn, "obligation": what, "status": "violated", "why": why})

    def goal(self, fn, what, F, f, note="", extra=None, exact=True, need=(), pred=None, lemmas=(), tries=1500):
        """one obligation: the formula f holds under the facts F

        pred: (values mentioned, function on a valuation), the obligation as it is evaluated when looking for a
        counterexample (then f need only be a sufficient condition).  lemmas: literals that hold in every valuation."""
        try:
            G = F.add_all(lemmas) if lemmas else F
            ok = prove(G, f)
            if not ok:
                H = with_products(G, f)
                ok = H is None or H is not G and prove(H, f)
        except (Undecided, RecursionError) as e:
            ok = False
        if ok:
            self.proved(fn, what)
            return True
        w = None
        if exact:
            try:
                if pred is not None and any(inexact(x) for x in pred[0]):
                    w = None
                else:
                    w = refute(F, f if pred is None else ("pred", pred[1]), self.types, extra={**self.extra, **(extra or {})}, need=need, tries=tries)
            except (Undecided, RecursionError):
                w = None
        if w is not None:
            self.violate(fn, what, "does not hold on the path %s%s" % (repr(F)[:700], note), w)
        else:
            self.undecided(fn, what, "neither shown nor refuted: %s under %s" % (showf(f)[:300], repr(F)[:300]))
        return False

    def structural(self, fn, what, ok, why):
        if ok is None:
            self.undecided(fn, what, why)
        elif ok:
            self.proved(fn, what)
        else:
            self.violate(fn, what, why)

    def reach(self, fn, what, F, why, extra=None):
        """an outcome that must not be reachable: it is a violation if its facts have a valuation"""
        return self.goal(fn, what, F, False, " (%s)" % why, extra)

    def counts(self):
        c = {"proved": 0, "undecided": 0, "violated": 0}
        for o in self.obl:
            c[o["status"]] += 1
        return c


def showf(f):
    if isinstance(f, bool):
        return str(f)
    if f[0] == "lit":
        return show_lit(f[1])
    if f[0] == "all":
        return "ALL %s in [%r,%r): %s" % (f[1], f[2], f[3], showf(f[4]))
    return "(" + (" %s " % f[0]).join(showf(x) for x in f[1]) + ")"
