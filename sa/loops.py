"""Loop summaries: modified cells are found by widening to a fixpoint, given closed forms where their
updates are recurrences the analysis knows, and otherwise kept as unknown values constrained by
invariants that every back edge preserves.  No iteration is unrolled."""
from .terms import *
from .terms import Atom, Poly
from . import terms as T
from .facts import *
from .values import *
from .values import int_sort, subst_ty, VECLIKE, BOXLIKE
from .interp import explore, Dead, PanicEx, simp_poly

MAXROUNDS = 14


class Leaf:
    __slots__ = ("id", "kind", "root", "init", "hv", "path")

    def __init__(self, id, kind, root, init, hv, path):
        self.id, self.kind, self.root, self.init, self.hv, self.path = id, kind, root, init, hv, path

    def __repr__(self):
        return "<%s %s%r init=%r>" % (self.kind, self.root, self.path, self.init)


class Peel(Exception):
    pass


# ------------------------------------------------------------------------------ occurrence of ids
_IDC = {}


def ids(x):
    """all identifier tuples ('hv', ..) and ('#', ..) inside x"""
    if isinstance(x, Atom):
        r = _IDC.get(x)
        if r is None:
            r = _IDC[x] = frozenset(ids(x.args))
        return r
    if isinstance(x, Poly):
        s = set()
        for m, _ in x.t:
            for a, _e in m:
                s |= ids(a)
        return s
    if isinstance(x, tuple):
        if x and x[0] in ("hv", "#"):
            return {x}
        s = set()
        for y in x:
            s |= ids(y)
        # a root such as ('T', '#', ...)
        if len(x) > 2 and x[1] == "#":
            s.add(x[1:])
        return s
    if isinstance(x, Val):
        return ids(x.parts())
    return set()


def local_to(x, ns):
    n = len(ns)
    return any(i[:n] == ns for i in ids(x) if i[0] == "#")


# ------------------------------------------------------------------------------ typed descent
def field_ty(types, ty, v, k):
    """type of field k of a value v of type ty"""
    if ty is None:
        return None
    t = types.T[ty]
    if t["k"] == "tuple":
        return t["es"][k]
    if t["k"] == "adt":
        if t["path"] in BOXLIKE:
            return field_ty(types, t["args"][0], v, k)
        a = types.adts.get(t["path"])
        if a:
            var = a["variants"][v.variant if isinstance(v, AdtV) else 0]
            if k < len(var["fields"]):
                return subst_ty(types, var["fields"][k]["ty"], a["params"], t["args"])
    if t["k"] == "closure":
        ups = t.get("upvars")
        if ups and k < len(ups):
            return ups[k]
    return None


def seq_ty(types, ty):
    if ty is None:
        return None
    t = types.T[ty]
    if t["k"] in ("slice", "array"):
        return t["e"]
    if t["k"] == "adt":
        if t["path"] in VECLIKE:
            return t["args"][0]
        if t["path"] in BOXLIKE:
            return seq_ty(types, t["args"][0])
    return None


def ety_of(s):
    if isinstance(s, SymSeq):
        return s.ety
    if isinstance(s, (UpdSeq, MUpdSeq, SubSeq, RemSeq, SortSeq)):
        return ety_of(s.base)
    if isinstance(s, CatSeq):
        for g in s.segs:
            e = ety_of(g)
            if e is not None:
                return e
    return None


def root_ty(ex, root):
    if root[0] == "L":
        b = ex.frbody.get(root[1])
        if b is not None and root[2] < len(b.locals):
            return b.locals[root[2]]
    return ex.roottype.get(root)


def num_ty(types, s):
    """the element type of a sequence of numbers built from literals"""
    if isinstance(s, CatSeq):
        for g in s.segs:
            r = num_ty(types, g)
            if r is not None:
                return r
    vals = s.items if isinstance(s, LitSeq) else [v for _, v in s.cases] if isinstance(s, (CompSeq, FiltSeq)) else ()
    for v in vals:
        if isinstance(v, Poly) and v.const() is None:
            so = sort_of(v)
            so = {"nat": "usize", "int": "isize"}.get(so, so)
            for i, t in enumerate(types.T):
                if t["k"] in ("int", "uint") and int_sort(t["name"]) == so:
                    return i
    return None


# ------------------------------------------------------------------------------ widening
class Widen:
    def __init__(self, ex, lid):
        self.ex, self.types, self.lid = ex, ex.types, lid
        self.leaves = {}
        self.bykey = {}
        self.changed = False

    def leaf(self, kind, root, path, init, mkhv):
        k = (root, path, kind)
        lf = self.leaves.get(k)
        if lf is None:
            i = ("hv",) + self.lid + (len(self.leaves),)
            lf = Leaf(i, kind, root, init, None, path)
            lf.hv = mkhv(i)
            self.leaves[k] = lf
            self.bykey[i] = lf
        self.changed = True
        return lf

    def is_hv(self, v):
        if isinstance(v, Poly):
            a = v.single()
            if a is not None and a.kind == "hv":
                return self.bykey.get(a.args[0])
        elif isinstance(v, SymSeq):
            return self.bykey.get(v.key)
        elif isinstance(v, tuple) and v and v[0] == "lit" and v[1][0] == "b":
            return self.bykey.get(v[1][1])
        elif isinstance(v, SymV):
            return self.bykey.get(v.key)
        return None

    def gen(self, h, b, root, path, ty):
        """the least known value that covers both h (at the header) and b (on a back edge)"""
        if h is b or h == b:
            return h
        lf = self.is_hv(h)
        if isinstance(h, Poly) and isinstance(b, Poly):
            if lf is not None and lf.kind == "num":
                return h
            sort = None
            if ty is not None:
                t = self.types.T[ty]
                if t["k"] in ("int", "uint", "float", "param"):
                    sort = int_sort(t["name"])
            if sort is None:
                s1 = sort_of(h) if h.const() is None else None
                s2 = sort_of(b) if b.const() is None else None
                if s1 in FIELD_SORTS or s2 in FIELD_SORTS:
                    sort = s1 if s1 in FIELD_SORTS else s2
                else:
                    sort = "int"
            return self.leaf("num", root, path, h, lambda i: P(atom("hv", (i,), sort))).hv
        if isinstance(h, SymV) or isinstance(b, SymV):
            h2, b2 = force(h, self.types), force(b, self.types)
            if not (isinstance(h2, SymV) or isinstance(b2, SymV)):
                return self.gen(h2, b2, root, path, ty)
        if isinstance(h, Seq) and isinstance(b, Seq):
            if lf is not None:
                if h.n == b.n or h.n == P(atom("len", (lf.id,), "usize")):
                    return h
                # the length changes too
                self.changed = True
                lf.hv = SymSeq(lf.id, h.ety, P(atom("len", (lf.id,), "usize")))
                return lf.hv
            ety = seq_ty(self.types, ty)
            if ety is None:
                ety = ety_of(h)
            if ety is None:
                ety = ety_of(b)
            if ety is None:
                ety = num_ty(self.types, h) or num_ty(self.types, b)
            n = h.n if h.n == b.n else None
            return self.leaf("seq", root, path, h, lambda i: SymSeq(i, ety, n if n is not None else P(atom("len", (i,), "usize")))).hv
        if isinstance(h, (bool, tuple)) and isinstance(b, (bool, tuple)):
            if lf is not None:
                return h
            return self.leaf("bool", root, path, h, lambda i: ("lit", ("b", i, True))).hv
        if type(h) is type(b):
            if isinstance(h, AdtV) and h.path == b.path and h.variant == b.variant and len(h.fields) == len(b.fields):
                return AdtV(h.path, h.variant, [self.gen(x, y, root, path + (("f", k),), field_ty(self.types, ty, h, k))
                                                for k, (x, y) in enumerate(zip(h.fields, b.fields))])
            if isinstance(h, TupV) and len(h.fields) == len(b.fields):
                return TupV([self.gen(x, y, root, path + (("f", k),), field_ty(self.types, ty, h, k))
                             for k, (x, y) in enumerate(zip(h.fields, b.fields))])
            if isinstance(h, ClosureV) and h.key == b.key:
                return ClosureV(h.key, [self.gen(x, y, root, path + (("f", k),), None) for k, (x, y) in enumerate(zip(h.ups, b.ups))])
            if isinstance(h, IterV):
                return IterV(self.gen(h.src, b.src, root, path + (("src",),), None),
                             self.cursor(h.pos, b.pos, root, path + (("pos",),)),
                             self.cursor(h.back, b.back, root, path + (("back",),)))
            if isinstance(h, Src) and h.kind == b.kind and len(h.args) == len(b.args):
                return Src(h.kind, [self.gen(x, y, root, path + (("a", k),), None) for k, (x, y) in enumerate(zip(h.args, b.args))])
            if isinstance(h, RefV) and h.root == b.root and len(h.path) == len(b.path):
                np = []
                for k, (x, y) in enumerate(zip(h.path, b.path)):
                    if x == y:
                        np.append(x)
                    elif x[0] == y[0] and x[0] in ("i", "sub"):
                        np.append((x[0],) + tuple(self.cursor(p, q, root, path + (("rp", k, j),)) for j, (p, q) in enumerate(zip(x[1:], y[1:]))))
                    else:
                        raise Undecided("references of different shapes meet at a loop head")
                return RefV(h.root, np)
        if isinstance(h, AdtV) and isinstance(b, AdtV) and h.path == b.path or lf is not None and lf.kind == "enum":
            if lf is not None:
                return h
            if ty is not None and self.types.T[ty]["k"] == "adt":
                return self.leaf("enum", root, path, h, lambda i: SymV(i, ty)).hv
        raise Peel("values of different shapes meet at a loop head: %r / %r" % (h, b))

    def cursor(self, p, q, root, path):
        if p == q:
            return p
        lf = self.is_hv(p)
        if lf is not None:
            return p
        return self.leaf("num", root, path, p, lambda i: P(atom("hv", (i,), "usize"))).hv

    def pairs(self, h, b, out):
        """(leaf, value on the back edge) for every widened cell"""
        lf = self.is_hv(h)
        if lf is not None:
            out[lf.id] = b
            return
        if h is b or not isinstance(h, Val):
            if isinstance(h, tuple) and isinstance(b, tuple) and h != b and len(h) == len(b):
                for x, y in zip(h, b):
                    self.pairs(x, y, out)
            elif isinstance(h, (Poly, tuple, bool)) and h != b:
                raise Undecided("header state is not a fixpoint")
            return
        if h == b:
            return
        if isinstance(h, SymV) or isinstance(b, SymV):
            h2, b2 = force(h, self.types), force(b, self.types)
            if not isinstance(h2, SymV) or not isinstance(b2, SymV):
                return self.pairs(h2, b2, out)
        if type(h) is not type(b):
            raise Undecided("header state is not a fixpoint")
        for x, y in zip(h.parts(), b.parts()):
            self.pairs(x, y, out)


def states(outs):
    return [o for o in outs if o.kind == "ret" and o.val[0] == "back"]


# ------------------------------------------------------------------------------ the solver
def solve(ex, ctx, step, label, types=None):
    peeled = 0
    limit = ctx.opts.get("peel")
    ways = 0
    if ex.prog.ring is not None:
        ex.prog.ring.settle(ctx)
    while True:
        lid = ctx.fresh_id()
        if limit is not None:
            # trace partitioning: a loop without an exact summary is followed for its first iterations only
            r = ctx.memo(lambda: attempt(ex, ctx, step, label, lid)) if not ways else ("trace",)
            if r[0] == "trace":
                ways += 1
                if ways > limit + 1:
                    raise Dead()
                res = step(ctx)
                if res[0] == "back":
                    continue
                return res[1]
        else:
            r = ctx.memo(lambda: analyse(ex, ctx, step, label, lid))
        if r[0] == "unswitch":
            ctx.testl(r[1])
            continue
        if r[0] == "peel":
            peeled += 1
            if peeled > 2:
                raise Undecided(r[1])
            res = step(ctx)
            if res[0] == "back":
                continue
            return res[1]
        outs = r[1]
        o = outs[ctx.choose(len(outs))]
        ctx.facts = o.facts
        ctx.store.clear()
        ctx.store.update(o.store)
        ctx.flags |= o.flags
        ctx.events = list(o.events)
        if o.kind == "panic":
            raise PanicEx(o.val, o.msg, o.sp)
        return o.val[1]


def attempt(ex, ctx, step, label, lid):
    try:
        r = analyse(ex, ctx, step, label, lid)
    except (Undecided, KeyError, AttributeError, TypeError, ValueError, IndexError, ZeroDivisionError):
        return ("trace",)
    if r[0] == "outs" and len(r) == 3 and not r[2]:
        return ("trace",)
    return r


def run_step(ex, ctx, step, H, F, ns, events=None):
    ex.nloops += 1
    if ex.nloops > ex.maxloops:
        raise Undecided("analysis budget exhausted")

    def f(c):
        c.stack = list(ctx.stack)
        c.events = list(events if events is not None else ctx.events)
        r = step(c)
        if ex.prog.ring is not None and r[0] == "back":
            ex.prog.ring.settle(c)
        return r
    return explore(ex.prog, f, H, F, ctx.opts, ns, 400)


def analyse(ex, ctx, step, label, lid):
    F0 = ctx.facts
    S0 = dict(ctx.store)
    W = Widen(ex, lid)
    H = dict(S0)
    rnd = 0
    while True:
        rnd += 1
        if rnd > MAXROUNDS:
            raise Undecided("widening does not stabilise")
        ns = lid + (rnd,)
        outs = run_step(ex, ctx, step, H, F0, ns)
        W.changed = False
        H2 = dict(H)
        try:
            for o in states(outs):
                for root in H:
                    if root not in H2:
                        continue
                    b = o.store.get(root)
                    if b is None:
                        del H2[root]
                        W.changed = True
                        continue
                    if b is H[root]:
                        continue
                    if local_to(b, ns) and refs_local(b, ns):
                        # a reference to something made in this iteration: only fine if never read
                        del H2[root]
                        W.changed = True
                        continue
                    g = W.gen(H2[root], b, root, (), root_ty(ex, root))
                    if g is not H2[root]:
                        H2[root] = g
        except Peel as e:
            if rnd == 1 or not W.leaves:
                return ("peel", str(e))
            return ("peel", str(e))
        if not W.changed:
            break
        H = {k: (v if k in H2 else None) for k, v in H2.items()}
    backs = states(outs)
    if not backs:
        # the body never comes back: it is no loop on this path
        return ("outs", [o for o in outs])
    # unswitch on loop invariant conditions
    for o in backs:
        for l in sorted(o.facts.lits - F0.lits, key=show_lit):
            if not ids_hv(l, lid) and not local_to(l, ns) and F0.decide(l) is None and l[0] != "d":
                return ("unswitch", l)
    for o in outs:
        if o in backs:
            continue
        for l in sorted(o.facts.lits - F0.lits, key=show_lit):
            if not ids_hv(l, lid) and not local_to(l, ns) and F0.decide(l) is None and l[0] in ("ge", "b"):
                if any(F0.lits | {neg_n(l)} and neg_n(l) in b.facts.lits for b in backs):
                    return ("unswitch", l)
    L = Loop(ex, ctx, step, W, H, F0, outs, backs, lid, ns, S0)
    res = L.result()
    if ex.loophook is not None:
        ex.loophook(L)
    return ("outs", res, not L.open and not getattr(L, "dropped", False))


def ids_hv(x, lid):
    n = len(lid)
    return any(i[0] == "hv" and i[1:n + 1] == lid for i in ids(x))


def refs_local(v, ns):
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, RefV):
            if local_to(x.root, ns):
                return True
            todo.append(x.path)
        elif isinstance(x, Poly):
            continue
        elif isinstance(x, Val):
            todo.append(x.parts())
        elif isinstance(x, tuple):
            todo.extend(x)
    return False


class Loop:
    def __init__(self, ex, ctx, step, W, H, F0, outs, backs, lid, ns, S0):
        self.ex, self.ctx, self.step, self.W, self.H, self.F0 = ex, ctx, step, W, H, F0
        self.outs, self.backs, self.lid, self.ns, self.S0 = outs, backs, lid, ns, S0
        self.t = atom("it", (lid,), "usize")
        self.s = atom("its", (lid,), "usize")
        self.num, self.seq, self.boo, self.enum = {}, {}, {}, {}       # closed forms in t
        self.lens = {}                                                  # of sequences without one yet
        self.exact = True
        self.news = []
        for o in backs:
            d = {}
            for root, h in H.items():
                b = o.store.get(root)
                if b is None or b is h:
                    continue
                W.pairs(h, b, d)
            self.news.append(d)
        self.leaves = sorted(W.leaves.values(), key=lambda l: l.id)
        for lf in self.leaves:
            for d in self.news:
                if lf.id not in d:
                    d[lf.id] = lf.hv

    # substitution of the closed forms found so far (at iteration t)
    def S(self, at=None, facts=None):
        m, seqs = {}, {}
        for lf in self.leaves:
            if lf.id in self.num:
                m[atom_of(lf.hv)] = self.num[lf.id]
            if lf.id in self.seq:
                seqs[lf.id] = self.seq[lf.id]
            elif lf.id in self.lens:
                m[atom_of(lf.hv.n)] = self.lens[lf.id]
        if at is not None:
            sh = Subst({self.t: at})
            m = {k: sh.any(v) for k, v in m.items()}
            seqs = {k: sh.any(v) for k, v in seqs.items()}
        s = Subst(m)
        if seqs:
            s.seqs = seqs
        s.facts = facts
        s.types = self.ex.types
        s.keys = set(m)
        return s

    def unresolved(self, x):
        n = len(self.lid)
        done = set(self.num) | set(self.seq) | set(self.boo) | set(self.enum)
        return any(i[0] == "hv" and i[1:n + 1] == self.lid and i not in done for i in ids(x))

    def local(self, x):
        return local_to(x, self.ns)

    def sub_lits(self, S, lits):
        """literals under S; those about widened booleans that are resolved are folded"""
        out = []
        for l in lits:
            if l[0] == "b" and l[1] in self.boo:
                v = self.boo[l[1]]
                if v is True or v is False:
                    if v != l[2]:
                        return None
                    continue
                return None
            try:
                out.append(norm_lit(S.any(l)))
            except Undecided:
                continue
        return out

    def facts_j(self, o):
        """facts of back edge o with the closed forms substituted"""
        f = self.fcache.get((id(o), self.version))
        if f is None:
            S = self.S(facts=None)
            f = Facts(frozenset(), self.F0.foralls)
            for l in sorted(o.facts.lits, key=show_lit):
                if S.seqs is not None and l not in self.F0.lits:
                    try:
                        l2 = norm_lit(self.subst_safe(l, f))
                    except Undecided:
                        continue
                else:
                    l2 = norm_lit(S.any(l))
                tr = trivial(l2)
                if tr is True:
                    continue
                f = Facts(f.lits | {l2}, f.foralls)
            f = Facts(f.lits, f.foralls)
            self.fcache[(id(o), self.version)] = f
        return f

    def subst_safe(self, x, f):
        S = self.S(facts=f)
        return S.any(x)

    def at_t(self, o, v):
        return self.subst_safe(v, self.facts_j(o))

    def case(self, o):
        """the new literals of back edge o at iteration t, or None if one cannot be expressed"""
        out = []
        for l in sorted(o.facts.lits - self.F0.lits, key=show_lit):
            if l[0] == "b" and l[1] in self.boo:
                continue
            try:
                l2 = norm_lit(self.at_t(o, l))
            except Undecided:
                return None
            tr = trivial(l2)
            if tr is True:
                continue
            if self.unresolved(l2) or self.local(l2):
                return None
            out.append(l2)
        return tuple(out)

    def result(self):
        self.fcache, self.version = {}, 0
        t, s = self.t, self.s
        for lf in self.leaves:
            self.grows(lf)
        progress = True
        while progress:
            progress = False
            for lf in self.leaves:
                if lf.id in self.num or lf.id in self.seq or lf.id in self.boo or lf.id in self.enum:
                    continue
                try:
                    ok = self.close(lf)
                except Undecided:
                    ok = False
                if ok:
                    self.version += 1
                    progress = True
            if not progress:
                progress = self.pending_runs()
                if progress:
                    self.version += 1
        self.open = [lf for lf in self.leaves if lf.id not in self.num and lf.id not in self.seq and lf.id not in self.boo and lf.id not in self.enum]
        return self.finish()

    def grows(self, lf):
        """the length of a sequence that every iteration extends by the same number of elements"""
        if lf.kind != "seq" or lf.hv.n.single() is None or lf.hv.n.single().kind != "len":
            return
        ns = set()
        for d in self.news:
            tl = is_grow(d[lf.id], lf.hv)
            if tl is None or not all(isinstance(x, LitSeq) for x in tl):
                return
            ns.add(sum(len(x.items) for x in tl))
        if len(ns) == 1 and ns != {0}:
            self.lens[lf.id] = lf.init.n + ns.pop() * P(self.t)

    # -------------------------------------------------------------------------- closed forms
    def cases(self):
        cs = [self.case(o) for o in self.backs]
        return None if any(c is None for c in cs) else cs

    def close(self, lf):
        t, s = self.t, self.s
        raw = [d[lf.id] for d in self.news]
        if lf.kind == "num":
            h = lf.hv
            ha = atom_of(h)
            vals = [self.at_t(o, v) for o, v in zip(self.backs, raw)]
            if any(not isinstance(v, Poly) or self.local(v) for v in vals):
                return False
            deltas = [v - h for v in vals]
            other = [d for d in deltas if self.unresolved(d)]
            if not other:
                if all(d == deltas[0] for d in deltas):
                    d = deltas[0]
                    if not occurs(t, d):
                        self.num[lf.id] = lf.init + d * P(t)
                    else:
                        self.num[lf.id] = lf.init + Sum(ZERO, P(t), s, subst(d, {t: P(s)}))
                    return True
                cs = self.cases()
                if cs is not None:
                    d = ite(tuple(zip(cs, deltas)))
                    self.num[lf.id] = lf.init + Sum(ZERO, P(t), s, subst(d, {t: P(s)}))
                    return True
            # products
            ms = []
            for v in vals:
                li = v.linear_in(ha)
                if li is None or li[1].t or not li[0].t or self.unresolved(li[0]):
                    ms = None
                    break
                ms.append(li[0])
            if ms:
                if all(m == ms[0] for m in ms):
                    m = ms[0]
                elif self.cases() is not None:
                    m = ite(tuple(zip(self.cases(), ms)))
                else:
                    return False
                self.num[lf.id] = lf.init * Prod(ZERO, P(t), s, subst(m, {t: P(s)}))
                return True
            # overwritten in every iteration
            if all(not self.unresolved(v) for v in vals):
                if all(v == vals[0] for v in vals):
                    v = vals[0]
                elif self.cases() is not None:
                    v = ite(tuple(zip(self.cases(), vals)))
                else:
                    return False
                prev = subst(v, {t: P(t) - 1})
                if not occurs(t, prev) and prev == lf.init:
                    self.num[lf.id] = lf.init
                else:
                    if subst(v, {t: P(-1)}) == lf.init and not any(a.kind in ("quot", "rem", "ite") for a in fv(v)):
                        self.num[lf.id] = prev
                    else:
                        self.num[lf.id] = ite((((("ge", -P(t)),), lf.init), ((("ge", P(t) - 1),), prev)))
                return True
            return False
        if lf.kind == "bool":
            if all(v is raw[0] for v in raw) and raw[0] in (True, False) and raw[0] == lf.init:
                self.boo[lf.id] = lf.init
                return True
            return False
        if lf.kind == "seq":
            return self.close_seq(lf, raw)
        return False

    def close_seq(self, lf, raw):
        t, s = self.t, self.s
        if all(is_grow(v, lf.hv) is not None for v in raw):
            tails = [is_grow(v, lf.hv) for v in raw]
            items = []
            for o, tl in zip(self.backs, tails):
                tl = [self.at_t(o, x) for x in tl]
                if any(self.unresolved(x) or self.local(x) for x in tl):
                    return False
                items.append(tl)
            if all(len(x) == 1 and isinstance(x[0], LitSeq) and len(x[0].items) == 1 for x in items):
                cs = self.cases() if len(items) > 1 else [()]
                if cs is None:
                    return False
                cases = tuple((c, x[0].items[0]) for c, x in zip(cs, items))
                if all(v == cases[0][1] for _, v in cases):
                    cases = (((), cases[0][1]),)
                self.seq[lf.id] = cat([lf.init, comp(P(t), s, Subst({t: P(s)}).any(cases))])
                return True
            if all(len(x) == 0 or len(x) == 1 and isinstance(x[0], LitSeq) and len(x[0].items) == 1 for x in items):
                cs = self.cases()
                if cs is None:
                    return False
                keep = tuple((c, x[0].items[0]) for c, x in zip(cs, items) if x)
                drop = tuple(c for c, x in zip(cs, items) if not x)
                S = Subst({t: P(s)})
                self.seq[lf.id] = cat([lf.init, filt(P(t), s, S.any(keep), S.any(drop))])
                return True
            # blocks of a fixed length per iteration
            if len(items) == 1 or all(x == items[0] for x in items):
                x = items[0]
                n = ZERO
                for g in x:
                    n = n + g.n
                if not occurs(t, n) and x:
                    S = Subst({t: quot(P(s), n)})
                    blk = cat(x)
                    fac = self.facts_j(self.backs[0])
                    b = atom("blk", (self.lid,), "usize")
                    f2 = fac.add_all([("ge", n - 1 - P(b))])
                    if f2 is None:
                        return False
                    v = pure_get(blk, P(b), f2, self.ex.types)
                    v = Subst({t: quot(P(s), n), b: rem(P(s), n)}).any(v)
                    self.seq[lf.id] = cat([lf.init, comp(P(t) * n, s, (((), v),))])
                    return True
            return False
        # writes into cells that exist before the loop
        ws = [self.writes(v, lf.hv) for v in raw]
        if any(w is None for w in ws):
            return False
        nw = {len(w) for w in ws if w}
        if not nw or len(nw) > 1 or (lf.hv.n != lf.init.n):
            return False
        nw = nw.pop()
        if nw > 2:
            return False
        # guess: the state at iteration t is init with the writes of the earlier iterations; the
        # values written may read the old state, which must then be unmodified where it is read
        cs = self.cases() if len(ws) > 1 else [()]
        if cs is None:
            return False
        tmp = atom("hvx", (lf.id,), "usize")
        rounds = []
        for k in range(nw):
            rows = []
            idx = vars = None
            for o, w, c in zip(self.backs, ws, cs):
                if not w:
                    rows.append((o, c, None))
                    continue
                vs, ix, cases = w[k]
                vs = tuple((v, self.at_t(o, n)) for v, n in vs)
                ix = self.at_t(o, ix)
                if self.unresolved(ix) or self.unresolved(vs) or self.local(ix) or self.local(vs):
                    return False
                if idx is None:
                    idx, vars = ix, vs
                else:
                    if len(vs) != len(vars):
                        return False
                    ren = Subst({a: P(b) for (a, _), (b, _) in zip(vs, vars)})
                    if ren.any(ix) != idx or tuple(ren.any(n) for _, n in vs) != tuple(n for _, n in vars):
                        return False
                    cases = ren.any(cases)
                rows.append((o, c, cases))
            rounds.append((vars, idx, rows))
        # candidate with the reads replaced by the initial contents
        cand = lf.init
        S_t = Subst({t: P(s)})
        for vars, idx, rows in rounds:
            out = []
            scattered = False
            if any(cases is None for _, _, cases in rows):
                try:
                    scattered = solve_index(((t, P(t)),) + tuple(vars), idx, P(atom("q", ("cell",), "usize")), self.facts_j(self.backs[0])) is None
                except Undecided:
                    scattered = True
            for o, c, cases in rows:
                if cases is None and scattered:
                    out.append((c, KEEP))
                    continue
                if cases is None:
                    fj = self.facts_j(o)
                    out.append((c, self.reads(lf, pure_get(lf.hv, idx, fj, self.ex.types), o)))
                    continue
                for l, v in cases:
                    l = tuple(norm_lit(self.reads(lf, x, o)) for x in l)
                    v = self.reads(lf, v, o)
                    if self.unresolved(v) or self.unresolved(l) or self.local(v) or self.local(l):
                        return False
                    out.append((tuple(c) + l, v))
            if all(v == out[0][1] for _, v in out):
                out = [((), out[0][1])]
            elif any(self.unresolved(l) for l, _ in out):
                return False
            ov = atom("ov", (lf.id,), "usize")
            cand = mupd_at(cand, ((s, P(t)),) + tuple((v, S_t.any(n)) for v, n in vars), S_t.any(idx), S_t.any(tuple(out)))
        # collisions between rounds of one iteration and of different iterations
        if nw == 2 and not self.no_collision(rounds):
            return False
        # every read of the old state must see the initial contents
        for o, d in zip(self.backs, self.news):
            for key in sorted(reads_of(d[lf.id], lf.id) | reads_of(tuple(o.facts.lits - self.F0.lits), lf.id), key=repr):
                idx = self.at_t(o, key)
                fj = self.facts_j(o)
                bvs = sorted({a for a in fv(idx) if a.kind == "bv"}, key=lambda a: a.s)
                f2 = fj
                for b in bvs:
                    rg = self.range_of(b, ws)
                    if rg is not None:
                        f2 = f2.add(("ge", self.at_t(o, rg) - P(b) - 1)) if f2 is not None else None
                if f2 is None:
                    continue
                x = pure_get(cand, idx, f2, self.ex.types)
                y = pure_get(lf.init, idx, f2, self.ex.types)
                if x != y:
                    return False
        self.seq[lf.id] = cand
        return True

    def range_of(self, b, ws):
        for w in ws:
            for vs, _, _ in w or ():
                for v, n in vs:
                    if v is b:
                        return n
        return None

    def no_collision(self, rounds):
        (v1, i1, _), (v2, i2, _) = rounds
        f = None
        for o in self.backs:
            fj = self.facts_j(o)
            s = self.s
            # a later first write at a cell that an earlier second write used
            S = Subst({self.t: P(s)})
            f2 = fj.add(("ge", P(self.t) - P(s) - 1))
            if f2 is None:
                continue
            for v, n in v1 + v2:
                f2 = f2.add(("ge", n - P(v) - 1)) or f2
            if f2.decide(eq(i1, S.any(i2))) is not False and i1 != S.any(i2):
                return False
            if i1 == S.any(i2):
                return False
        return True

    def reads(self, lf, x, o):
        """x at iteration t with reads of lf's cell replaced by the initial contents"""
        S = self.S(facts=self.facts_j(o))
        seqs = dict(S.seqs or {})
        seqs[lf.id] = lf.init
        S.seqs = seqs
        S.facts = self.facts_j(o)
        return S.any(x)

    def writes(self, v, hv):
        """v as writes over hv, oldest first: list of (vars, index, cases), or None"""
        out = []
        while True:
            if v == hv:
                return out[::-1]
            if isinstance(v, UpdSeq):
                out.append(((), v.idx, (((), v.val),)))
                v = v.base
            elif isinstance(v, MUpdSeq):
                out.append((v.vars, v.idx, v.cases))
                v = v.base
            else:
                return None

    def pending_runs(self):
        """a sequence and a counter of elements held back: `drop` cases count, `keep` cases first
        append that many copies of one fill element, then their own, and reset the counter"""
        t, s = self.t, self.s
        for A in self.leaves:
            if A.kind != "seq" or A.id in self.seq:
                continue
            for B in self.leaves:
                if B.kind != "num" or B.id in self.num or B.init.t:
                    continue
                keep, drop, fill = [], [], None
                ok = True
                for o, d in zip(self.backs, self.news):
                    try:
                        c = []
                        for l in sorted(o.facts.lits - self.F0.lits, key=show_lit):
                            if B.id in ids(l) and not self.unresolved(subst(l, {atom_of(B.hv): ZERO})):
                                # distinctions on the counter alone (an empty run) do not matter
                                continue
                            l2 = norm_lit(self.at_t(o, l))
                            if trivial(l2) is True:
                                continue
                            if self.unresolved(l2) or self.local(l2):
                                ok = False
                                break
                            c.append(l2)
                    except Undecided:
                        ok = False
                    if not ok:
                        break
                    a, b = d[A.id], d[B.id]
                    if a == A.hv and b == B.hv + 1:
                        drop.append(tuple(c))
                        continue
                    g = is_grow(a, A.hv)
                    if g is None or b != ZERO:
                        ok = False
                        break
                    g = [self.at_t(o, x) for x in g]
                    run = None
                    if len(g) == 2 and isinstance(g[0], CompSeq) and g[0].n == B.hv and isinstance(g[1], LitSeq) and len(g[1].items) == 1:
                        if len(g[0].cases) != 1 or g[0].bv in fv(g[0].cases[0][1]):
                            ok = False
                            break
                        run = g[0].cases[0][1]
                        last = g[1].items[0]
                    elif len(g) == 1 and isinstance(g[0], LitSeq) and len(g[0].items) == 1 and o.facts.decide(("eq", B.hv)) is True:
                        last = g[0].items[0]
                    else:
                        ok = False
                        break
                    if run is not None:
                        if fill is not None and fill != run:
                            ok = False
                            break
                        fill = run
                    if self.unresolved(last) or self.local(last):
                        ok = False
                        break
                    keep.append((tuple(c), last))
                if not ok or fill is None or not drop or not keep:
                    continue
                if not isinstance(A.init, LitSeq) or A.init.items:
                    continue
                S = Subst({t: P(s)})
                ks, ds = {}, []
                for c, v in keep:
                    ks.setdefault((c, v), None)
                seq = trimseq(P(t), s, S.any(tuple(ks)), S.any(tuple(dict.fromkeys(drop))), fill)
                self.seq[A.id] = seq
                self.num[B.id] = P(t) - seq.n
                return True
        return False

    # -------------------------------------------------------------------------- facts and exits
    def finish(self):
        t, s = self.t, self.s
        ctx = self.ctx
        F = self.F0
        # per back edge: the literals that hold at iteration t and can be expressed
        self.dropped = False
        clauses = []
        for o in self.backs:
            c = []
            for l in sorted(o.facts.lits - self.F0.lits, key=show_lit):
                if l[0] == "b" and l[1] in self.boo:
                    continue
                try:
                    l2 = norm_lit(self.at_t(o, l))
                except Undecided:
                    self.dropped = True
                    continue
                tr = trivial(l2)
                if tr is True:
                    continue
                if self.unresolved(l2) or self.local(l2):
                    self.dropped = True
                    continue
                c.append(l2)
            clauses.append(tuple(c))
        m = {t: P(s)}
        if all(clauses):
            F = F.add_forall(((s, ZERO, P(t)),), Subst(m).any(tuple(clauses)))
        # nested universal facts common to every back edge
        per = []
        for o in self.backs:
            fs = set()
            for vs, cases in o.facts.foralls:
                if (vs, cases) in self.F0.foralls:
                    continue
                try:
                    x = self.at_t(o, (vs, cases))
                except Undecided:
                    continue
                if self.unresolved(x) or self.local(x):
                    continue
                fs.add(x)
            per.append(fs)
        common = set.intersection(*per) if per else set()
        nested = [(vs, cases) for vs, cases in sorted(common, key=repr)]
        # those of one back edge only: the iteration took another one, or they hold
        for k, fs in enumerate(per):
            if all(clauses):
                for vs, cases in sorted(fs - common, key=repr):
                    oth = tuple(c for j, c in enumerate(clauses) if j != k)
                    if len(cases) + len(oth) <= 6:
                        nested.append((vs, tuple(cases) + oth))
        for vs, cases in nested:
            S = Subst(m)
            vs2, cases2 = S.any(vs), S.any(cases)
            vs2 = tuple((a.single() if isinstance(a, Poly) else a, lo, hi) for a, lo, hi in vs2)
            ren = {}
            nv = []
            for k, (a, lo, hi) in enumerate(vs2):
                b = atom("fa", (self.lid, k), "usize")
                nv.append((b, subst(lo, ren), subst(hi, ren)))
                ren[a] = P(b)
            F = F.add_forall(((s, ZERO, P(t)),) + tuple(nv), subst(cases2, ren))
        # literals of the continue condition that also held "before" the first iteration
        common = set(clauses[0]) if clauses else set()
        for c in clauses[1:]:
            common &= set(c)
        cands = set(common)
        for c in clauses:
            for l in c:
                if l[0] == "ge" and all(self.entails(self.facts_j(o), l) for o in self.backs):
                    cands.add(l)
        for l in sorted(cands, key=show_lit):
            if l[0] == "ge" and occurs(t, l[1]):
                before = subst(l, {t: P(-1)})
                if self.F0.decide(before) is True:
                    f2 = F.add(subst(l, {t: P(t) - 1}))
                    if f2 is None:
                        return []
                    F = f2
        # what was learnt inside the iteration about things that do not change
        H = {}
        S = self.S(facts=F)
        for root, h in self.H.items():
            try:
                v = S.any(h)
            except Undecided:
                v = None
            if v is not None and self.boo:
                v = subst_bool(v, self.boo)
            if v is not None:
                H[root] = v
        F = self.invariants(F)
        if F is None:
            return []
        outs = run_step(self.ex, ctx, self.step, H, F, self.lid + ("x",))
        res = []
        for o in outs:
            if o.kind == "ret" and o.val[0] == "back":
                continue
            o = self.settle(o)
            o = o and self.pin(o)
            res.append(o)
        if any(o is not None and o.kind == "ret" and self.mentions(o) for o in res):
            res = [o and self.named(o, clauses, per) for o in res]
        if not res:
            return []
        return [o for o in res if o is not None]

    def entails(self, f, l):
        return l in f.lits or f.decide(l) is True

    def settle(self, o):
        """give the exit iteration its value where the facts determine it"""
        t = self.t
        best = None
        for l in sorted(o.facts.lits, key=show_lit):
            if l[0] not in ("ge", "eq") or not occurs(t, l[1]):
                continue
            li = l[1].linear_in(t)
            if not li or li[0].const() not in (1, -1):
                continue
            e = -li[1] * li[0].const()
            if occurs(t, e):
                continue
            if l[0] == "eq" or o.facts.decide(("ge", P(t) - e)) is True and o.facts.decide(("ge", e - P(t))) is True:
                if best is None or len(e.t) < len(best.t):
                    best = e
        if best is None:
            return o
        self.replace(o, {t: best})
        if o.facts is None:
            return None
        o.facts = o.facts.add(("ge", best))
        return o if o.facts is not None else None

    def pin(self, o):
        """replace cells without closed form that the exit condition fixes"""
        for lf in self.open:
            if lf.kind != "num":
                continue
            a = atom_of(lf.hv)
            for l in sorted(o.facts.lits, key=show_lit):
                if l[0] != "eq" or not occurs(a, l[1]):
                    continue
                li = l[1].linear_in(a)
                if not li or li[0].const() not in (1, -1):
                    continue
                e = -li[1] * li[0].const()
                if occurs(a, e):
                    continue
                self.replace(o, {a: e})
                if o.facts is None:
                    return None
                break
        return o

    def mentions(self, o):
        return any(occurs(self.t, y) for y in (o.facts, o.val, tuple(o.events))) or any(v is not None and occurs(self.t, v) for v in o.store.values())

    def named(self, o, clauses, per):
        """a search: the position where it stops has a name made of the condition for going on"""
        if self.open or self.dropped or not clauses or any(per) or not all(clauses) or self.ex.unnamed:
            return o
        n = None
        if not self.mentions(o):
            # the end of the range: all clauses share the bound
            common = set(clauses[0]).intersection(*map(set, clauses[1:]))
            bounds = [l[1] for l in common if l[0] == "ge" and l[1].linear_in(self.t) and l[1].linear_in(self.t)[0].const() == -1]
            if len(bounds) != 1:
                return o
            n = bounds[0] + P(self.t) + 1
        bv, body = bind(self.t, tuple(sorted(clauses, key=repr)))
        p = sym("first", (bv, body), "usize")
        if n is None:
            self.replace(o, {self.t: p})
        else:
            o.facts = o.facts.add(eq(p, n))
        return o if o.facts is not None else None

    def replace(self, o, m):
        S = Subst(m)
        f = o.facts.subst(S)
        if f is not None:
            f2 = Facts(frozenset(), f.foralls)
            for l in sorted(f.lits, key=lambda l: (l[0] != "eq", show_lit(l))):
                f2 = f2.add(l)
                if f2 is None:
                    break
            f = f2
        o.facts = f
        if f is None:
            return
        o.store = {k: S.any(v) for k, v in o.store.items()}
        o.val = S.any(o.val)
        o.events = S.any(tuple(o.events))

    def invariants(self, F):
        """linear candidates over the cells without closed form, kept when inductive"""
        nums = [lf for lf in self.open if lf.kind == "num"]
        if not nums:
            return F
        cands = []
        for lf in nums:
            h = lf.hv
            if atom_of(h).sort in FIELD_SORTS:
                continue
            cands += [("ge", h - lf.init), ("ge", lf.init - h), ("ge", h), ("ge", -h), ("ge", h - 1), ("ge", lf.init + P(self.t) - h)]
        ints = [lf for lf in nums if atom_of(lf.hv).sort not in FIELD_SORTS]
        for i, a in enumerate(ints):
            for b in ints[i + 1:]:
                cands.append(("eq", gcd_term(a.hv, b.hv) - gcd_term(a.init, b.init)))
                cands += [("ge", a.hv - b.hv), ("ge", b.hv - a.hv)]
                if a.init == b.init or True:
                    cands.append(("eq", (a.hv - a.init) - (b.hv - b.init)))
                    cands.append(("eq", (a.hv - a.init) + (b.hv - b.init)))
        at0 = {atom_of(lf.hv): lf.init for lf in nums}
        at0[self.t] = ZERO
        cands = [norm_lit(c) for c in cands]
        cands = [c for c in dict.fromkeys(cands) if self.F0.decide(subst(c, at0)) is True]
        while cands:
            keep = []
            for c in cands:
                ok = True
                for o, d in zip(self.backs, self.news):
                    m = {}
                    for lf in self.leaves:
                        if lf.kind == "num":
                            m[atom_of(lf.hv)] = d[lf.id]
                    try:
                        c2 = self.at_t(o, subst(c, {**m, self.t: P(self.t) + 1}))
                        f = self.facts_j(o)
                        for x in cands:
                            f2 = f.add(self.at_t(o, x))
                            if f2 is None:
                                break
                            f = f2
                        else:
                            if f.decide(c2) is not True:
                                ok = False
                    except Undecided:
                        ok = False
                    if not ok:
                        break
                if ok:
                    keep.append(c)
            if len(keep) == len(cands):
                break
            cands = keep
        for c in cands:
            F = F.add(c)
            if F is None:
                return None
        return F


def atom_of(p):
    return p.single()


def subst_bool(v, boo):
    if isinstance(v, tuple) and v and v[0] == "lit":
        l = v[1]
        if l[0] == "b" and l[1] in boo:
            b = boo[l[1]]
            return b if l[2] else (not b)
        return v
    if isinstance(v, (AdtV, TupV, ClosureV)):
        p = v.parts()
        fs = tuple(subst_bool(x, boo) for x in p[-1])
        if fs != p[-1]:
            return v.rebuilt(p[:-1] + (fs,))
    return v


def is_grow(v, hv):
    """segments appended to hv, or None"""
    if v == hv:
        return []
    if isinstance(v, CatSeq) and v.segs[0] == hv:
        return list(v.segs[1:])
    # appended to an (initially empty) sequence whose tail was merged
    return None


def reads_of(x, key):
    """index polynomials at which elements of the sequence `key` are read in x"""
    out = set()

    def go(x):
        if isinstance(x, Atom):
            for a in x.args:
                go(a)
        elif isinstance(x, Poly):
            for m, _ in x.t:
                for a, _e in m:
                    go(a)
        elif isinstance(x, tuple):
            if len(x) == 3 and x[0] == "el" and x[1] == key:
                out.add(x[2])
                go(x[2])
                return
            for y in x:
                go(y)
        elif isinstance(x, SymSeq):
            go(x.n)
            if x.key != key:
                go(x.key)
        elif isinstance(x, Val):
            go(x.parts())
    go(x)
    return out


def mupd_at(base, vars, idx, cases):
    return mupd(base, vars, idx, cases)
