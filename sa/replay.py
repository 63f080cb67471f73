"""Confirming that an inductive obligation fails: the transition relation of an analysed loop (its head state
and the terms each way through the body gives it) is evaluated on a valuation of the inputs, from the initial
state to the exit.  Only terms of the domain are evaluated.  An obligation that was not shown is reported as
violated only if such a valuation ends in a result that breaks the property."""
import itertools
import random
from fractions import Fraction
from .terms import *
from .terms import Atom, Poly
from .facts import *
from .values import *
from .polyval import PV
from .witness import W, NoValue, Reject, WORK, widened


LAST = [""]


class RW(W):
    """a valuation with the widened parts of the state fixed"""

    def __init__(self, rng, types=None, size=3, extra=None):
        super().__init__(rng, types, size, extra)
        self.state = {}         # key of a widened sequence -> list of values
        self.zero = 0.35

    def pick(self, k, sort):
        if (k, sort) not in self.base:
            if sort in ("usize", "nat", "pos", "u32", "u64"):
                self.base[(k, sort)] = self.rng.choice((1, 2, 2, 2, 3)) if self.wide == "long" else self.rng.choice((1, 2, 3, 3, 4, 5) if self.rng.random() > .06 else (0, 6) if self.wide is not None else (0, 6, 7, 8))
            elif sort in FIELD_SORTS and sort not in ("Mono", "Pol"):
                self.base[(k, sort)] = 0 if self.rng.random() < self.zero else self.rng.choice((1, 1, -1, 2, -2, 3, 5))
        return super().pick(k, sort)

    def atom(self, a):
        if a in self.env:
            return self.env[a]
        if a.kind == "x" and isinstance(a.args[0], tuple) and a.args[0][0] == "el" and a.args[0][1] in self.state:
            l, i = self.state[a.args[0][1]], self.num(a.args[0][2])
            if not 0 <= i < len(l):
                raise Reject()
            v = l[int(i)]
            if not isinstance(v, (int, Fraction, PV)):
                raise NoValue("element")
            return v
        if a.kind == "x" and isinstance(a.args[0], tuple) and a.args[0][0] == "el" and widened(a.args[0][1]):
            raise NoValue("a state that was not followed")
        if a.kind == "len" and isinstance(a.args[0], tuple) and a.args[0][:1] == ("hv",):
            if a.args[0] not in self.state:
                raise NoValue("length of a list")
            return len(self.state[a.args[0]])
        if a.kind in ("hv", "undef", "opq", "it", "its"):
            raise NoValue(a.kind)
        return super().atom(a)


def value_at(root, path, store, types):
    v = store.get(root)
    for p in path:
        if v is None:
            return None
        v = force(v, types) if isinstance(v, (SymV, AdtV)) else v
        if p[0] == "f" and isinstance(v, (AdtV, TupV)):
            v = v.fields[p[1]]
        elif p[0] == "src" and isinstance(v, IterV):
            v = v.src
        elif p[0] == "pos" and isinstance(v, IterV):
            v = v.pos
        elif p[0] == "back" and isinstance(v, IterV):
            v = v.back
        elif p[0] == "a" and isinstance(v, Src):
            v = v.args[p[1]]
        else:
            return None
    return v


ORDER = {}


def in_order(F):
    """the literals, the cheap ones first"""
    k = id(F)
    if k not in ORDER or ORDER[k][0] is not F:
        ORDER[k] = (F, sorted(F.lits, key=lambda l: len(show_lit(l))))
    return ORDER[k][1]


def hold(w, F, base=frozenset()):
    gap = None
    for l in in_order(F):
        if l in base:
            continue
        try:
            if not w.lit(l):
                return False
        except (NoValue, Reject) as e:
            gap = e
    for f in F.foralls:
        try:
            if not w.forall(*f):
                return False
        except (NoValue, Reject) as e:
            gap = e
    if gap is not None:
        raise gap
    return True


def positions(w, F, base):
    """the iteration counts F leaves open, with values for which F holds (a dict), or None"""
    open_ = sorted({a for l in F.lits if l not in base for a in fv(l) if a.kind == "it" and a not in w.env}, key=lambda a: a.s)
    if not open_:
        return {} if hold(w, F, base) else None
    if len(open_) > 2:
        raise NoValue("it")
    for vs in itertools.product(range(14 if len(open_) > 1 else 90), repeat=len(open_)):
        m = dict(zip(open_, vs))
        w.env.update(m)
        try:
            if hold(w, F, base):
                return m
        except Reject:
            pass
        finally:
            for a in open_:
                w.env.pop(a, None)
    return None


def possible(w, outs, base=frozenset()):
    """the outcomes whose facts hold: the one that happens is among them"""
    got = []
    for o in outs:
        m = positions(w, o.facts, base)
        if m is not None:
            got.append((o, m))
    return got


def one(w, outs, base=frozenset()):
    got = possible(w, outs, base)
    if len(got) != 1:
        raise NoValue("%d outcomes" % len(got))
    return got[0]


def verdict(w, bad, o, m):
    w.env.update(m)
    try:
        return bad(w, o)
    finally:
        for a in m:
            w.env.pop(a, None)


def ev(w, lf, v):
    if lf.kind == "num":
        return w.num(v)
    if lf.kind == "seq":
        return list(w.seq(v))
    raise NoValue(lf.kind)


def put(w, lf, x):
    if lf.kind == "num":
        w.env[P(lf.hv).single()] = x
    else:
        w.state[lf.hv.key] = x


def run_loop(w, L, steps=40):
    """the state of the loop at its exit"""
    lvs = list(L.W.leaves.values())
    vals = [ev(w, lf, lf.init) for lf in lvs]
    for n in range(steps):
        for lf, x in zip(lvs, vals):
            put(w, lf, x)
        o, m = one(w, L.outs)
        if not (o.kind == "ret" and o.val[0] == "back"):
            w.env[L.t] = n
            return
        w.env.update(m)
        vals = []
        for lf in lvs:
            v = value_at(lf.root, lf.path, o.store, w.types)
            if v is None:
                raise NoValue("leaf")
            vals.append(ev(w, lf, v))
        for a in m:
            w.env.pop(a, None)
    raise Reject()


def counterexample(types, F, outs, loops, bad, tries=400, seed=1, extra=None, prepare=None, small=False, effort=None):
    """a valuation of the inputs for which the outcome is bad(w, outcome), or None"""
    rng = random.Random(seed)
    top = {}
    for L in loops:
        if len(L.lid) == min(len(x.lid) for x in loops):
            top.setdefault(L.lid, []).append(L)
    gaps = 0
    start = WORK[0]
    for t in range(tries):
        w = RW(rng, types, extra=extra)
        w.zero = rng.choice((.15, .35, .6))
        w.wide = ("long" if t % 5 == 3 else None) if small else t % 5 == 4
        if effort is not None and WORK[0] - start > effort:
            return None
        try:
            if prepare:
                prepare(w)
            if not hold(w, F):
                continue
            for lid in sorted(top):
                Ls = top[lid]
                if all(not L.open for L in Ls):
                    continue
                L = None
                for x in Ls:
                    try:
                        if hold(w, x.F0):
                            L = x
                    except NoValue:
                        pass
                if L is None:
                    continue
                run_loop(w, L)
            os = possible(w, outs)
            if os and all(verdict(w, bad, o, m) for o, m in os):
                return {show(k[0]): str(v) for k, v in w.base.items() if isinstance(k, tuple) and len(k) == 2}
        except (Reject, OverflowError, IndexError, ZeroDivisionError):
            continue
        except (NoValue, Undecided) as e:
            LAST[0] = repr(e)
            gaps += 1
            if gaps > 20:
                return None
    return None
