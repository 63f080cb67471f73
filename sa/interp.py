"""Abstract interpreter over rustc's MIR (as dumped by driver/).

The interpreter is path-sensitive on undecided conditions and summarises every loop (loops.py);
it never runs program code on concrete data.
"""
import json
from .terms import *
from .terms import Atom, Poly
from . import terms as T
from .facts import *
from .facts import neg_n
from .values import *
from .values import VECLIKE, BOXLIKE

MAXPATHS = 1500


BITS = {n: int(n[1:]) if n[1:].isdigit() else 64 for n in ("i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize")}


class PanicEx(Exception):
    def __init__(self, kind, msg="", sp=None):
        self.kind, self.msg, self.sp = kind, msg, sp


class Dead(Exception):
    """this path is infeasible"""


class SkipItem(Exception):
    """an iterator item that a filter drops"""


class StopItem(Exception):
    """an iterator ends early"""


class Budget(Undecided):
    pass


# ------------------------------------------------------------------------------------ program
class Body:
    def __init__(self, key, b):
        self.key, self.b = key, b
        self.blocks = b["blocks"]
        self.nargs = b["nargs"]
        self.locals = b["locals"]
        self.names = {l: n for l, n in (b.get("names") or [])}
        self._an = False

    def succs(self, i):
        t = self.blocks[i]["t"]
        k = t["k"]
        if k == "goto":
            return [t["t"]]
        if k == "switch":
            return [x[1] for x in t["ts"]] + [t["else"]]
        if k in ("call", "assert", "drop"):
            return [t["t"]] if t.get("t") is not None else []
        return []

    def analyse(self):
        if self._an:
            return
        self._an = True
        n = len(self.blocks)
        order, seen = [], set()
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(self.succs(y))))
                    break
            else:
                order.append(x)
                stack.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self.loops = loops
        self.rpo = rpo
        # liveness of locals
        use, dfn = {}, {}
        for b in rpo:
            u, d = set(), set()

            def ref(x):
                if isinstance(x, dict):
                    if "l" in x and "p" in x:
                        if x["l"] not in d:
                            u.add(x["l"])
                        for e in x["p"]:
                            if e[0] == "index" and e[1] not in d:
                                u.add(e[1])
                        return
                    for k, v in x.items():
                        if k not in ("sp", "ty"):
                            ref(v)
                elif isinstance(x, list):
                    for y in x:
                        ref(y)
            for s in self.blocks[b]["s"]:
                if "rv" not in s:
                    continue
                ref(s["rv"])
                if s["pl"]["p"]:
                    ref(s["pl"])
                else:
                    d.add(s["pl"]["l"])
            t = self.blocks[b]["t"]
            if t["k"] == "call":
                ref(t["f"])
                ref(t["args"])
                if t["dst"]["p"]:
                    ref(t["dst"])
                else:
                    d.add(t["dst"]["l"])
            elif t["k"] == "switch":
                ref(t["d"])
            elif t["k"] == "assert":
                ref(t["c"])
                ref(t.get("msg"))
            elif t["k"] == "return":
                u.add(0)
            use[b], dfn[b] = u, d
        live = {b: set() for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                out = set()
                for s in self.succs(b):
                    out |= live[s]
                new = use[b] | (out - dfn[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.live = live


class Prog:
    ring = None     # how values of a type abstracted to ring elements are opened and closed (checks/poly.py)

    def __init__(self, path):
        with open(path) as f:
            self.d = json.load(f)
        self.types = Types(self.d)
        self.adts = self.d["adts"]
        self.roots = self.d["roots"]
        self._bodies = {}
        self.fromidx = {}
        self.implidx = {}
        for r in self.roots:
            if r.get("trait") and r.get("self") is not None:
                self.implidx.setdefault((r["trait"], r["name"], r["self"], tuple(r.get("trait_args") or [])), r)

    def body(self, key):
        b = self._bodies.get(key)
        if b is None:
            raw = self.d["bodies"].get(key)
            if raw is None:
                return None
            b = self._bodies[key] = Body(key, raw)
        return b

    def find(self, sub, exact=False):
        return [r for r in self.roots if (r["path"] == sub if exact else sub in r["path"])]


# ------------------------------------------------------------------------------------ context
class Ctx:
    def __init__(self, prog, trace, work, store, facts, opts, ns):
        self.prog, self.types = prog, prog.types
        self.trace, self.work = trace, work
        self.pos = 0
        self.store = store
        self.facts = facts
        self.opts = opts
        self.ns = ns
        self.cnt = 0
        self.flags = set()
        self.stack = []
        self.events = []

    # choices ------------------------------------------------------------------------------
    def fork(self, alts):
        """alts: list of literal lists (exhaustive, disjoint); returns the index chosen"""
        if self.pos < len(self.trace):
            i, f = self.trace[self.pos]
            self.pos += 1
            self.facts = f
            return i
        feas = []
        for i, ls in enumerate(alts):
            f = self.assume(self.facts, ls)
            if f is not None:
                feas.append((i, f))
        if not feas:
            raise Dead()
        for e in feas[1:]:
            self.work.append(self.trace[:self.pos] + [e])
        self.trace.append(feas[0])
        self.pos += 1
        self.facts = feas[0][1]
        return feas[0][0]

    def memo(self, fn):
        if self.pos < len(self.trace):
            _, v, c = self.trace[self.pos]
            self.pos += 1
            self.cnt = c
            return v
        v = fn()
        self.trace.append(("memo", v, self.cnt))
        self.pos += 1
        return v

    def choose(self, n):
        """one of n outcomes that carry their own facts"""
        if self.pos < len(self.trace):
            i, f = self.trace[self.pos]
            self.pos += 1
            return i
        if n == 0:
            raise Dead()
        for i in range(1, n):
            self.work.append(self.trace[:self.pos] + [(i, None)])
        self.trace.append((0, None))
        self.pos += 1
        return 0

    def assume(self, facts, ls):
        hook = self.opts.get("assume_hook")
        for l in ls:
            facts = facts.add(l)
            if facts is None:
                return None
            if hook is not None:
                for x in hook(self, l):
                    if x[0] == "forall":
                        facts = facts.add_forall(x[1], x[2])
                    else:
                        facts = facts.add(x)
                        if facts is None:
                            return None
        return facts

    def learn(self, *ls):
        f = self.assume(self.facts, ls)
        if f is None:
            raise Dead()
        self.facts = f

    def fresh_id(self):
        self.cnt += 1
        return self.ns + (self.cnt,)

    def fresh(self, kind, sort):
        return P(atom(kind, (self.fresh_id(),), sort))

    def new_root(self, tag, val):
        r = (tag,) + self.fresh_id()
        self.store[r] = val
        return r

    # truth ----------------------------------------------------------------------------------
    def eval3(self, f):
        if f is True or f is False:
            return f
        k = f[0]
        if k == "lit":
            return self.facts.decide(f[1])
        if k == "and":
            r = True
            for x in f[1]:
                v = self.eval3(x)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        r = False
        for x in f[1]:
            v = self.eval3(x)
            if v is True:
                return True
            if v is None:
                r = None
        return r

    def first_undecided(self, f):
        if f[0] == "lit":
            return f[1] if self.facts.decide(f[1]) is None else None
        for x in f[1]:
            if x is True or x is False:
                continue
            u = self.first_undecided(x)
            if u is not None:
                return u
        return None

    def test(self, f):
        while True:
            if f is True or f is False:
                return f
            # replay shortcut: decisions are recorded as forks
            if f[0] == "lit":
                return self.fork([[f[1]], [neg(f[1])]]) == 0
            v = self.memo(lambda: self.eval3(f))
            if v is not None:
                return v
            u = self.memo(lambda: self.first_undecided(f))
            if u is None:
                raise Undecided("formula")
            self.fork([[u], [neg(u)]])

    def testl(self, l):
        l = norm_lit(l)
        t = trivial(l)
        if t is not None:
            return t
        return self.fork([[l], [neg(l)]]) == 0

    # memory ---------------------------------------------------------------------------------
    def force(self, v):
        return force(v, self.types)

    def seq_get(self, s, i):
        s = self.force(s)
        i = self.simp(P(i))
        if isinstance(s, SymSeq):
            return SymV(("el", s.key, i), s.ety)
        if self.opts.get("pure"):
            v = pure_get(s, i, self.facts, self.types)
            if isinstance(v, Poly):
                return v
        if isinstance(s, LitSeq):
            c = i.const()
            if c is not None and 0 <= c < len(s.items):
                return s.items[int(c)]
            for k, v in enumerate(s.items):
                if self.testl(("eq", i - k)):
                    return v
            raise Undecided("index outside a literal sequence")
        if isinstance(s, CompSeq):
            S = Subst({s.bv: i})
            if len(s.cases) == 1:
                return self.simpv(S.any(s.cases[0][1]))
            k = self.fork([[self.simpv(x) for x in S.any(l)] for l, _ in s.cases])
            return self.simpv(S.any(s.cases[k][1]))
        if isinstance(s, CatSeq):
            off = ZERO
            for j, g in enumerate(s.segs):
                if j == len(s.segs) - 1 or self.testl(("ge", off + g.n - i - 1)):
                    return self.seq_get(g, i - off)
                off = off + g.n
        if isinstance(s, SubSeq):
            return self.seq_get(s.base, s.start + i)
        if isinstance(s, RemSeq):
            if self.testl(("ge", s.idx - i - 1)):
                return self.seq_get(s.base, i)
            return self.seq_get(s.base, i + 1)
        if isinstance(s, UpdSeq):
            if self.testl(("eq", s.idx - i)):
                return s.val
            return self.seq_get(s.base, i)
        if isinstance(s, MUpdSeq):
            sol = self.memo(lambda: solve_index(s.vars, s.idx, i, self.facts))
            if sol is None:
                raise Undecided("cannot resolve an index of a bulk update: %r = %r" % (s.idx, i))
            m, conds = sol
            for c in conds:
                if not self.testl(c):
                    return self.seq_get(s.base, i)
            S = Subst(m)
            if len(s.cases) == 1:
                return self.simpv(S.any(s.cases[0][1]))
            k = self.fork([list(S.any(l)) for l, _ in s.cases])
            return self.simpv(S.any(s.cases[k][1]))
        if isinstance(s, TrimSeq):
            S = Subst({s.bv: i})
            alts = [(S.any(l), v) for l, v in s.keep] + [(S.any(l), None) for l in s.drop]
            k = self.fork([list(l) for l, _ in alts])
            return S.any(alts[k][1]) if alts[k][1] is not None else s.fill
        if isinstance(s, FiltSeq):
            # the value kept at some position of the source
            w = sym("from", (s, i), "usize")
            self.learn(("ge", P(s.m) - 1 - w))
            S = Subst({s.bv: w})
            k = self.fork([list(S.any(l)) for l, _ in s.cases])
            return self.simpv(S.any(s.cases[k][1]))
        if isinstance(s, SortSeq):
            w = sorted_pos(s, i) if s.order != ("set",) else P(sym("from", (s, i), "usize"))
            self.learn(("ge", P(s.base.n) - 1 - w))
            return self.seq_get(s.base, w)
        raise Undecided("element of %s" % type(s).__name__)

    def proj(self, v, e):
        if isinstance(v, SymV):
            v = self.force(v)
        k = e[0]
        if k == "f":
            if isinstance(v, (AdtV, TupV)):
                return v.fields[e[1]]
            if isinstance(v, ClosureV):
                return v.ups[e[1]]
            if isinstance(v, Poly) and e[1] == 0 and getattr(self.prog, "exp_ty", None) is not None:
                # the exponents of a monomial
                ks = ("exps", v)
                return SymSeq(ks, self.prog.exp_ty, P(atom("len", (ks,), "usize")))
            raise Undecided("field of %r" % (v,))
        if k == "i":
            if not isinstance(v, Seq):
                raise Undecided("index of %r" % (v,))
            return self.seq_get(v, e[1])
        if k == "sub":
            return sub(v, e[1], e[2])
        if k == "view" and isinstance(v, Poly):
            return self.prog.ring.open(self, v)
        if k == "view" and isinstance(v, AdtV):
            return v.fields[e[1]]
        raise Undecided("projection %r" % (e,))

    def load(self, ref):
        v = self.store.get(ref.root)
        if v is None:
            raise Undecided("read of an unknown cell %r" % (ref.root,))
        for e in ref.path:
            v = self.proj(v, e)
        return self.force(v)

    def store_at(self, ref, val):
        if ref.root not in self.store and ref.path:
            raise Undecided("write into an unknown cell")
        self.store[ref.root] = self.upd(self.store.get(ref.root), ref.path, val)

    def upd(self, v, path, val):
        if not path:
            return val
        e = path[0]
        v = self.force(v)
        if e[0] == "f":
            if isinstance(v, (AdtV, TupV)):
                fs = list(v.fields)
                fs[e[1]] = self.upd(fs[e[1]], path[1:], val)
                return AdtV(v.path, v.variant, fs) if isinstance(v, AdtV) else TupV(fs)
            if isinstance(v, ClosureV):
                fs = list(v.ups)
                fs[e[1]] = self.upd(fs[e[1]], path[1:], val)
                return ClosureV(v.key, fs)
            raise Undecided("field write into %r" % (v,))
        if e[0] == "i":
            i = self.simp(e[1])
            new = val if len(path) == 1 else self.upd(self.seq_get(v, i), path[1:], val)
            return self.seq_upd(v, i, new)
        if e[0] == "view" and isinstance(v, (Poly, AdtV)):
            # a list of terms for as long as it is used as one
            s = v.fields[0] if isinstance(v, AdtV) else self.prog.ring.open(self, v)
            return self.prog.ring.made(self, self.upd(s, path[1:], val))
        raise Undecided("write through %r" % (e,))

    def seq_upd(self, v, i, new):
        if isinstance(v, LitSeq) and i.const() is not None and 0 <= i.const() < len(v.items):
            it = list(v.items)
            it[int(i.const())] = new
            return LitSeq(it)
        if isinstance(v, UpdSeq) and v.idx == i:
            return UpdSeq(v.base, i, new)
        if not isinstance(v, Seq):
            raise Undecided("index write into %r" % (v,))
        return UpdSeq(v, i, new)

    # simplification under the facts -----------------------------------------------------------
    def simp(self, p):
        """resolve quotients and remainders that the facts determine"""
        if not any(a.kind in ("quot", "rem") for a in fv(p)):
            return p
        return self.memo(lambda: simp_poly(p, self.facts))

    def simpv(self, v):
        if not any(a.kind in ("quot", "rem") for a in fv(v)):
            return v
        return self.memo(lambda: simp_val(v, self.facts))


def simp_map(x, facts):
    m = {}
    for a in sorted(fv(x), key=lambda a: (len(a.s), a.s)):
        if a.kind in ("quot", "rem"):
            n, d = a.args
            n2, d2 = subst(n, m), subst(d, m)
            A, B = divmod_split(n2, d2, facts)
            if A is not None:
                m[a] = A if a.kind == "quot" else B
            elif n2 != n or d2 != d:
                m[a] = make(a.kind, (n2, d2), a.sort)
    return m


def divmod_split(n, d, facts):
    """(quotient, remainder) of n by d if the facts determine a form n = A*d + B, 0 <= B < d"""
    ds = d.single()
    cands = []
    if ds is not None:
        cands.append(split_by(n, ds))
    elif d.const() is not None:
        c = d.const()
        A = mk({m: k // c for m, k in n.t if k % c == 0})
        cands.append((A, n - A * d))
    cands.append((ZERO, n))
    for A, B in cands:
        for k in (0, 1, -1):
            if facts.decide(("ge", B - k * d)) and facts.decide(("ge", d - 1 - B + k * d)) and facts.decide(("ge", A + k)):
                return A + k, B - k * d
    return None, None


def simp_poly(p, facts):
    m = simp_map(p, facts)
    return subst(p, m) if m else p


def simp_val(v, facts):
    m = simp_map(v, facts)
    return Subst(m).any(v) if m else v


class Outcome:
    __slots__ = ("kind", "val", "facts", "store", "flags", "msg", "sp", "events", "stack")

    def __init__(self, kind, val, ctx, msg=None, sp=None):
        self.kind, self.val = kind, val
        self.facts, self.store, self.flags = ctx.facts, ctx.store, set(ctx.flags)
        self.msg, self.sp = msg, sp
        self.events = list(ctx.events)
        self.stack = list(ctx.stack)

    def __repr__(self):
        return "%s %r %s | %r" % (self.kind, self.val, self.msg or "", self.facts)


def explore(prog, fn, store, facts, opts, ns=("#",), budget=None):
    """all feasible paths of fn(ctx); every outcome carries its facts and store"""
    work = [[]]
    outs = []
    n = 0
    while work:
        tr = work.pop(0) if opts.get("peel") is not None else work.pop()
        n += 1
        if n > (budget or MAXPATHS):
            if opts.get("peel") is not None:
                break
            raise Budget("too many paths")
        ctx = Ctx(prog, list(tr), work, dict(store), facts, opts, ns)
        try:
            v = fn(ctx)
            outs.append(Outcome("ret", v, ctx))
        except Dead:
            continue
        except PanicEx as e:
            outs.append(Outcome("panic", e.kind, ctx, e.msg, e.sp))
    return outs


# ------------------------------------------------------------------------------------ execution
def strip_generics(s):
    d, out = 0, ""
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return out


class Exec:
    """statement semantics; one instance per program"""

    def __init__(self, prog, contracts=None):
        self.prog = prog
        self.types = prog.types
        self.contracts = contracts or {}
        from . import models, loops
        self.models = models
        self.loops = loops
        self.unknown = {}
        self.frbody = {}
        self.roottype = {}
        self.nloops = 0
        self.maxloops = 4000
        self.loophook = None
        self.unnamed = True

    # places --------------------------------------------------------------------------------------
    def place(self, ctx, fr, pl):
        r = RefV(("L", fr, pl["l"]))
        for e in pl["p"]:
            k = e[0]
            if k == "deref":
                v = ctx.load(r)
                if isinstance(v, RefV):
                    r = v
                elif isinstance(v, SymV):
                    t = self.types.get(v.ty)
                    if t["k"] == "ref":
                        root = ("S", v.key)
                        if root not in ctx.store:
                            ctx.store[root] = SymV(("d", v.key), t["e"])
                        r = RefV(root)
                    else:
                        raise Undecided("deref of %r" % (v,))
                else:
                    pass        # Box: transparent
            elif k == "field":
                v = ctx.load(r)
                if isinstance(v, (Seq, RefV)) or v is None or isinstance(v, OpaqueV) and v.tag == "uninit":
                    continue    # the pointer fields of a box
                if isinstance(v, Poly) and self.prog.ring is not None and self.prog.exp_ty not in (self.types.T[e[2]].get("args") or ()):
                    r = r.ext(("view", e[1]))
                    continue
                r = r.ext(("f", e[1]))
            elif k == "index":
                i = ctx.load(RefV(("L", fr, e[1])))
                r = r.ext(("i", i))
            elif k == "cindex":
                if e[2]:
                    s = ctx.load(r)
                    r = r.ext(("i", s.n - e[1]))
                else:
                    r = r.ext(("i", P(e[1])))
            elif k == "downcast":
                pass
            else:
                raise Undecided("place element %s" % k)
        return r

    def operand(self, ctx, fr, o):
        if "copy" in o:
            return ctx.load(self.place(ctx, fr, o["copy"]))
        if "move" in o:
            return ctx.load(self.place(ctx, fr, o["move"]))
        return self.const(ctx, o["const"])

    def tname(self, ty):
        t = self.types.get(ty)
        return t.get("name", t["k"])

    def const(self, ctx, c):
        if "fn" in c:
            f = c["fn"]
            return FnV(f.get("key") or f["path"], f)
        t = self.types.get(c["ty"])
        if "v" in c:
            if t["k"] == "bool":
                return bool(int(c["v"]))
            if t["k"] == "adt" and t["path"] not in VECLIKE:
                a = self.types.adts.get(t["path"])
                if a and a["kind"] == "enum":
                    for i, d in enumerate(a["discrs"]):
                        if d == int(c["v"]) or d % 256 == int(c["v"]) % 256:
                            return AdtV(t["path"], i, ())
                raise Undecided("constant of type %s" % t["path"])
            if t["k"] == "float":
                return P(int(c["v"])) if False else self.fconst(c)
            return P(int(c["v"]))
        if "fv" in c:
            return self.fconst(c)
        if "bytes" in c:
            return StrV(bytes(c["bytes"]) if not isinstance(c["bytes"], str) else c["bytes"])
        if "promoted" in c:
            return self.call_const(ctx, c["promoted"])
        if "constkey" in c:
            return self.call_const(ctx, c["constkey"])
        if "const" in c:
            r = self.assoc_const(ctx, c)
            if r is not None:
                return r
        if t["k"] == "tuple" and not t["es"]:
            return TupV(())
        if t["k"] in ("fndef",):
            return FnV(t["path"], {"path": t["path"], "key": t.get("key")})
        if t["k"] == "ref" and self.types.get(t["e"])["k"] == "str":
            return StrV(c.get("s"))
        if t["k"] == "adt":
            a = self.types.adts.get(t["path"])
            if a and a["kind"] == "struct" and not a["variants"][0]["fields"]:
                return AdtV(t["path"], 0, ())
            if t["path"] == "std::option::Option" and "None" in str(c.get("s")):
                return AdtV(t["path"], 0, ())
            if t["path"] == "std::marker::PhantomData":
                return AdtV(t["path"], 0, ())
        v = self.enum_const(c.get("s"), c["ty"])
        if v is not None:
            return v
        return OpaqueV("const", (c.get("s"), c["ty"]))

    def enum_const(self, s, ty):
        """constants printed as enum variants, e.g. Option::<Ordering>::Some(Ordering::Less)"""
        t = self.types.get(ty)
        if s is None or t["k"] != "adt":
            return None
        a = self.types.adts.get(t["path"])
        if a is None or a["kind"] != "enum":
            return None
        head, br, rest = s.partition("(")
        name = strip_generics(head).split("::")[-1].strip()
        for i, v in enumerate(a["variants"]):
            if v.get("name") == name and len(v["fields"]) == (1 if br else 0):
                if not br:
                    return AdtV(t["path"], i, ())
                fty = (t.get("args") or [None])[0]
                if fty is None or len(t["args"]) != 1:
                    return None
                x = self.enum_const(rest[:-1], fty)
                return None if x is None else AdtV(t["path"], i, (x,))
        return None

    def fconst(self, c):
        from fractions import Fraction
        v = c.get("fv", c.get("v"))
        return P(Fraction(v))

    def assoc_const(self, ctx, c):
        t = self.types.get(c["ty"])
        nm = c.get("name")
        if t["k"] == "param" and t["name"] in FIELD_SORTS:
            if nm == "ZERO":
                return ZERO
            if nm == "ONE":
                return ONE
        if t["k"] in ("int", "uint", "float") and nm in ("ZERO", "ONE"):
            return None
        return None

    def call_const(self, ctx, key):
        b = self.prog.body(key)
        if b is None:
            raise Undecided("constant %s" % key)
        return self.run_body(ctx, b, [])

    # bodies ----------------------------------------------------------------------------------------
    def run_body(self, ctx, body, args):
        fr = ctx.fresh_id()
        self.frbody[fr] = body
        if len(ctx.stack) > 40:
            raise Undecided("call depth")
        ctx.stack.append(body.key)
        if body.b.get("spread") and len(args) == 2:
            pass
        for i, a in enumerate(args):
            ctx.store[("L", fr, i + 1)] = a
        self.run(ctx, body, fr, 0, None)
        v = ctx.store.get(("L", fr, 0), TupV(()))
        if isinstance(v, SymV):
            v = ctx.force(v)
        # the frame dies, except for cells that the result refers to
        keep = set()
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, RefV) and x.root not in keep:
                keep.add(x.root)
                if x.root in ctx.store:
                    todo.append(ctx.store[x.root])
            elif isinstance(x, Val):
                todo.append(x.parts())
            elif isinstance(x, tuple):
                todo.extend(x)
        for r in [r for r in ctx.store if r[0] == "L" and r[1] == fr and r not in keep]:
            del ctx.store[r]
        ctx.stack.pop()
        return v

    def run(self, ctx, body, fr, bb, loop):
        """run from block bb; inside a loop step (loop = (header, blocks)) returns ('back',) or
        ('exit', block)"""
        body.analyse()
        first = True
        steps = 0
        while True:
            steps += 1
            if steps > 20000:
                raise Undecided("path too long")
            if loop is not None and not first:
                if bb == loop[0]:
                    return ("back", None)
                if bb not in loop[1]:
                    return ("exit", bb)
            if bb in body.loops and not (loop is not None and bb == loop[0] and first):
                hdr, blocks = bb, body.loops[bb]

                def step(c, hdr=hdr, blocks=blocks):
                    return self.run(c, body, fr, hdr, (hdr, blocks))
                live = body.live[hdr]
                for r in [r for r in ctx.store if r[0] == "L" and r[1] == fr and r[2] not in live]:
                    # a dead local may still be the target of a reference
                    if not self.referenced(ctx, r, fr, live):
                        del ctx.store[r]
                bb = self.loops.solve(self, ctx, step, "%s bb%d" % (body.key, hdr), None)
                first = False
                continue
            first = False
            blk = body.blocks[bb]
            for s in blk["s"]:
                if "rv" in s:
                    self.assign(ctx, fr, s["pl"], self.rvalue(ctx, fr, body, s["rv"]))
                elif s.get("k") == "setdiscr":
                    raise Undecided("set discriminant")
            t = blk["t"]
            k = t["k"]
            if k == "goto":
                bb = t["t"]
            elif k == "return":
                return ("return", None)
            elif k == "switch":
                bb = self.switch(ctx, fr, t)
            elif k == "drop":
                bb = t["t"]
            elif k == "assert":
                self.check_assert(ctx, fr, body, t, blk)
                bb = t["t"]
            elif k == "call":
                try:
                    v = self.call(ctx, fr, body, t, blk)
                except SkipItem:
                    # an item dropped by a filter at the head of a loop: next iteration
                    if loop is not None:
                        return ("back", None)
                    raise Undecided("filtered iterator outside a loop")
                if t.get("t") is None:
                    raise PanicEx("diverge", str(t["f"])[:80], blk.get("sp"))
                self.assign(ctx, fr, t["dst"], v)
                bb = t["t"]
            elif k == "unreachable":
                raise Dead()
            else:
                raise Undecided("terminator %s" % k)

    def referenced(self, ctx, r, fr, live):
        if not hasattr(ctx, "_x"):
            pass
        for q, v in ctx.store.items():
            if q[0] == "L" and q[1] == fr and q[2] not in live:
                continue
            if self.mentions(v, r):
                return True
        return False

    def mentions(self, v, r):
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, RefV):
                if x.root == r:
                    return True
            elif isinstance(x, Poly):
                continue
            elif isinstance(x, Val):
                todo.append(x.parts())
            elif isinstance(x, tuple):
                todo.extend(x)
        return False

    def local_types(self, body, fr):
        def f(root):
            if root[0] == "L" and root[1] == fr:
                return body.locals[root[2]]
            return None
        return f

    def assign(self, ctx, fr, pl, v):
        if not pl["p"]:
            ctx.store[("L", fr, pl["l"])] = v
        else:
            ctx.store_at(self.place(ctx, fr, pl), v)

    # rvalues -------------------------------------------------------------------------------------
    def rvalue(self, ctx, fr, body, rv):
        k = rv["k"]
        if k == "use":
            return self.operand(ctx, fr, rv["o"])
        if k in ("ref", "rawptr"):
            return self.mkref(ctx, fr, rv["pl"])
        if k == "bin":
            a, b = self.operand(ctx, fr, rv["a"]), self.operand(ctx, fr, rv["b"])
            return self.binop(ctx, rv["op"], a, b, self.op_type(body, rv["a"]))
        if k == "un":
            a = self.operand(ctx, fr, rv["o"] if "o" in rv else rv["a"])
            if rv["op"] == "Not":
                if isinstance(a, Poly):
                    raise Undecided("bitwise not")
                return f_not(a)
            if rv["op"] == "Neg":
                return -a
            if rv["op"] == "PtrMetadata":
                if isinstance(a, RefV):
                    s = ctx.load(a)
                    return s.n
            raise Undecided("unary %s" % rv["op"])
        if k == "agg":
            fs = [self.operand(ctx, fr, o) for o in rv["fs"]]
            ak = rv["ak"]
            if ak == "tuple":
                return TupV(fs)
            if ak == "array":
                return LitSeq(fs)
            if ak == "closure":
                return ClosureV(rv["key"], fs)
            if ak == "adt":
                if rv["adt"] in ("std::ops::Range", "core::ops::Range") and len(fs) == 2:
                    return IterV(Src("range", (fs[0], fs[1])))
                if self.prog.ring is not None and self.prog.ring.is_poly(rv["adt"]):
                    return self.prog.ring.made(ctx, fs[0])
                return AdtV(rv["adt"], rv.get("v", 0) or 0, fs)
            if ak == "rawptr":
                return fs[0]
            raise Undecided("aggregate %s" % ak)
        if k == "cast":
            return self.cast(ctx, rv, self.operand(ctx, fr, rv["o"]), body)
        if k == "discr":
            v = ctx.load(self.place(ctx, fr, rv["pl"]))
            return self.discr(ctx, v)
        raise Undecided("rvalue %s" % k)

    def mkref(self, ctx, fr, pl):
        r = self.place(ctx, fr, pl)
        return r

    def discr(self, ctx, v):
        v = self.variant_of(ctx, v)
        a = self.types.adts.get(v.path)
        if a and a["discrs"]:
            return P(a["discrs"][v.variant])
        return P(v.variant)

    def variant_of(self, ctx, v):
        """force an enum value to a known variant"""
        v = ctx.force(v)
        if isinstance(v, AdtV):
            return v
        raise Undecided("discriminant of %r" % (v,))

    def op_type(self, body, o):
        pl = o.get("copy") or o.get("move")
        if pl is None:
            return o["const"]["ty"]
        ty = body.locals[pl["l"]]
        for e in pl["p"]:
            t = self.types.get(ty)
            if e[0] == "deref":
                ty = t["e"] if "e" in t else (t["args"][0] if t.get("args") else ty)
            elif e[0] == "field":
                ty = e[2]
            elif e[0] in ("index", "cindex"):
                ty = t["e"] if "e" in t else ty
        return ty

    def binop(self, ctx, op, a, b, ty):
        t = self.types.get(ty)
        name = t.get("name", t["k"])
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(ctx, op, a, b, name)
        if t["k"] == "bool" or isinstance(a, (bool, tuple)):
            if op == "BitAnd":
                return f_and([a, b])
            if op == "BitOr":
                return f_or([a, b])
            if op == "BitXor":
                return f_or([f_and([a, f_not(b)]), f_and([f_not(a), b])])
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            raise Undecided("operands of %s: %r, %r" % (op, a, b))
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op == "Cmp":
            return self.cmp3(ctx, a, b, name)
        if base in ("Add", "Sub", "Mul"):
            r = a + b if base == "Add" else a - b if base == "Sub" else a * b
            if op.endswith("WithOverflow"):
                return TupV((r, self.overflow(r, name, base)))
            if t["k"] in ("int", "uint") and op == base:
                # wrapping arithmetic (only generated where overflow checks are off)
                if name in INT_BOUNDS and not self.fits(ctx, r, name):
                    return self.wrap(ctx, r, name)
            return r
        if base in ("Div", "Rem"):
            if name in FIELD_SORTS:
                if base == "Rem":
                    raise Undecided("float remainder")
                return self.fdiv(ctx, a, b)
            if base == "Div":
                return ctx.simp(quot(a, b))
            return ctx.simp(rem(a, b))
        if base in ("BitAnd", "BitOr", "Shl", "Shr", "BitXor"):
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None:
                f = {"BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y, "Shl": lambda x, y: x << y,
                     "Shr": lambda x, y: x >> y, "BitXor": lambda x, y: x ^ y}[base]
                return P(f(int(ca), int(cb)))
            if base == "Shl" and cb is not None and 0 <= cb < BITS.get(name, 0):
                r = a * (2 ** int(cb))
                return r if self.fits(ctx, r, name) else self.wrap(ctx, r, name)
            if base == "Shr" and cb is not None and 0 <= cb < BITS.get(name, 0):
                return self.floor_div(ctx, a, 2 ** int(cb), t)
            if base == "BitAnd":
                if cb is None:
                    a, cb = b, ca
                if cb is not None and cb >= 0 and int(cb) & (int(cb) + 1) == 0:
                    m = int(cb) + 1
                    return ctx.simp(a - m * self.floor_div(ctx, a, m, t)) if self.negative(ctx, a, t) else ctx.simp(rem(a, P(m)))
        raise Undecided("operator %s" % op)

    def negative(self, ctx, a, t):
        return t["k"] != "uint" and not ctx.testl(("ge", a))

    def floor_div(self, ctx, a, m, t):
        """a shifted to the right: the quotient rounded down"""
        return ctx.simp(-quot(m - 1 - a, P(m)) if self.negative(ctx, a, t) else quot(a, P(m)))

    def fdiv(self, ctx, a, b):
        if ctx.testl(("req", b)):
            ctx.flags.add("div0")
            return sym("undef", ("div", a), "F")
        return a * inv_poly(b)

    def overflow(self, r, name, base):
        if name in ("usize", "u64", "u128"):
            return f_lit(("ge", -r - 1)) if base == "Sub" else False
        if name in ("i64", "isize", "i128"):
            return False
        lo, hi = INT_BOUNDS.get(name) or (-2 ** 31, 2 ** 31 - 1)
        return f_or([f_lit(("ge", P(lo) - r - 1)), f_lit(("ge", r - hi - 1))])

    def fits(self, ctx, r, name):
        f = self.overflow(r, name, "Sub")
        return not ctx.test(f)

    def wrap(self, ctx, r, name):
        ctx.flags.add("wrapped")
        return sym("wrap", (r, name), name)

    def compare(self, ctx, op, a, b, name):
        if isinstance(a, AdtV) and isinstance(b, AdtV):
            if a.fields or b.fields:
                raise Undecided("comparison of enums with data")
            e = a.variant == b.variant
            return e if op == "Eq" else not e
        if isinstance(a, (bool, tuple)):
            e = f_or([f_and([a, b]), f_and([f_not(a), f_not(b)])])
            return e if op == "Eq" else f_not(e)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            if isinstance(a, RefV) and isinstance(b, RefV):
                raise Undecided("pointer comparison")
            raise Undecided("comparison of %r and %r" % (a, b))
        if name in FIELD_SORTS:
            if op == "Eq":
                return f_lit(req(a, b))
            if op == "Ne":
                return f_lit(rne(a, b))
            return f_lit({"Lt": ("rgt", b - a), "Le": ("rge", b - a), "Gt": ("rgt", a - b), "Ge": ("rge", a - b)}[op])
        return f_lit({"Eq": eq(a, b), "Ne": ne(a, b), "Lt": lt(a, b), "Le": le(a, b), "Gt": gt(a, b), "Ge": ge(a, b)}[op])

    ORD = "std::cmp::Ordering"

    def ordering(self, v):
        """variant index of the Ordering type: Less, Equal, Greater"""
        return AdtV(self.ORD, v, ())

    def cmp3(self, ctx, a, b, name):
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            raise Undecided("comparison of %r and %r" % (a, b))
        if name in FIELD_SORTS:
            k = ctx.fork([[("rgt", b - a)], [req(a, b)], [("rgt", a - b)]])
        else:
            k = ctx.fork([[lt(a, b)], [eq(a, b)], [gt(a, b)]])
        return self.ordering(k)

    def cast(self, ctx, rv, v, body):
        ck = rv["ck"]
        ty = rv["ty"]
        if ck == "IntToInt":
            name = self.tname(ty)
            src = self.tname(self.op_type(body, rv["o"]))
            return self.int_cast(ctx, v, src, name)
        if ck in ("Transmute",):
            if isinstance(v, Poly) and self.types.get(ty)["k"] == "adt":
                return self.discr_to_enum(ctx, v, ty)
            return v
        if ck == "IntToFloat":
            return v
        return v

    def discr_to_enum(self, ctx, v, ty):
        c = v.const()
        t = self.types.get(ty)
        a = self.types.adts.get(t["path"])
        if c is not None and a and a["kind"] == "enum":
            for i, d in enumerate(a["discrs"]):
                if d == c or (d - c) % 256 == 0:
                    return AdtV(t["path"], i, ())
        raise Undecided("transmute")

    def int_cast(self, ctx, v, src, dst):
        if isinstance(v, (bool, tuple)):
            return P(1) if ctx.test(v) else ZERO
        if not isinstance(v, Poly):
            raise Undecided("cast of %r" % (v,))
        if src == dst or dst in ("i128",):
            return v
        if dst in ("i64", "isize"):
            return v        # values beyond the i64 range are outside the analysed domain
        if dst in ("usize", "u64", "u128", "u32"):
            # upper bounds of wide types are assumed not to be reached
            if ctx.testl(("ge", v)):
                if dst == "u32" and src in ("u64", "usize", "i64", "isize"):
                    ctx.flags.add("assume-u32")
                return v
            ctx.flags.add("wrapped")
            return sym("wrap", (v, dst), dst)
        lo, hi = INT_BOUNDS.get(dst) or (-2 ** 31, 2 ** 31 - 1)
        if dst == "i32" and src in ("i64", "usize", "u64", "isize", "u32"):
            ctx.flags.add("assume-i32")
            return v
        if ctx.testl(("ge", v - lo)) and ctx.testl(("ge", P(hi) - v)):
            return v
        ctx.flags.add("wrapped")
        return sym("wrap", (v, dst), dst)

    # control -------------------------------------------------------------------------------------
    def switch(self, ctx, fr, t):
        v = self.operand(ctx, fr, t["d"])
        if isinstance(v, (bool, tuple)):
            b = ctx.test(v)
            for val, tgt in t["ts"]:
                if int(val) == (1 if b else 0):
                    return tgt
            return t["else"]
        if not isinstance(v, Poly):
            raise Undecided("switch on %r" % (v,))
        c = v.const()
        if c is not None:
            for val, tgt in t["ts"]:
                if int(val) == c or (int(val) - int(c)) % 2 ** 64 == 0 or (int(val) > 127 and int(val) - 256 == c):
                    return tgt
            return t["else"]
        name = self.tname(t["ty"])
        alts = [[eq(v, P(int(val)))] for val, _ in t["ts"]]
        alts.append([ne(v, P(int(val))) for val, _ in t["ts"]])
        k = ctx.fork(alts)
        return t["ts"][k][1] if k < len(t["ts"]) else t["else"]

    def check_assert(self, ctx, fr, body, t, blk):
        msg = t.get("msg")
        m = json.dumps(msg) if not isinstance(msg, str) else msg
        if "other" in m:
            return
        c = self.operand(ctx, fr, t["c"])
        if t["exp"] is False or t["exp"] == 0:
            c = f_not(c)
        if c is True:
            return
        if "overflow" in m and any(x in m for x in ("Neg", "Div", "Rem")):
            return          # only at the minimum of a signed type
        if not ctx.test(c):
            kind = "overflow" if "overflow" in m else "bounds" if "bounds" in m else "divzero"
            raise PanicEx(kind, m, t.get("sp") or blk.get("sp"))

    # calls ---------------------------------------------------------------------------------------
    def call(self, ctx, fr, body, t, blk):
        args = [self.operand(ctx, fr, a) for a in t["args"]]
        f = t["f"]
        if "const" in f and "fn" in f["const"]:
            fn = f["const"]["fn"]
            return self.call_fn(ctx, fn, args, t)
        v = self.operand(ctx, fr, f)
        return self.apply(ctx, v, args)

    def call_fn(self, ctx, fn, args, t=None):
        key = fn.get("key")
        if fn.get("name") in ("call_once", "call_mut", "call") and len(args) == 2 and isinstance(args[1], TupV):
            return self.apply(ctx, args[0], list(args[1].fields))
        for k in (key, fn.get("rpath"), fn.get("path")):
            c = self.contracts.get(k)
            if c is not None:
                r = c(self, ctx, fn, args)
                if r is not NotImplemented:
                    return r
        m = self.models.lookup(fn)
        if m is not None:
            r = m(self, ctx, fn, args)
            if r is not NotImplemented:
                return r
        if fn.get("ctor") is not None or fn.get("variant") is not None:
            return self.construct(ctx, fn, args)
        b = self.prog.body(key) if key else None
        if b is None and fn.get("trait") == "std::convert::Into" and fn["name"] == "into":
            return self.into(ctx, fn, args)
        if b is None:
            self.unknown[fn.get("rpath") or fn["path"]] = self.unknown.get(fn.get("rpath") or fn["path"], 0) + 1
            raise Undecided("unknown callee %s" % (fn.get("rpath") or fn["path"]))
        return self.run_body(ctx, b, args)

    def construct(self, ctx, fn, args):
        ad = fn.get("ctor")
        path = ad if isinstance(ad, str) else fn["path"]
        v = fn.get("variant") or 0
        if path not in self.types.adts:
            p2 = path.rsplit("::", 1)[0]
            if p2 in self.types.adts:
                path = p2
        return AdtV(path, v, args)

    def into(self, ctx, fn, args):
        src, dst = fn["args"]
        return self.convert(ctx, src, dst, args[0])

    def convert(self, ctx, src, dst, v):
        ts, td = self.types.get(src), self.types.get(dst)
        if src == dst:
            return v
        if ts["k"] in ("int", "uint") and td["k"] in ("int", "uint"):
            return self.int_cast(ctx, v, ts["name"], td["name"])
        r = self.prog.implidx.get(("std::convert::From", "from", dst, (src,)))
        if r is None:
            raise Undecided("conversion %s -> %s" % (ts.get("s"), td.get("s")))
        fn = {"key": r["key"], "path": r["path"], "rpath": r["path"], "name": "from", "trait": "std::convert::From"}
        return self.call_fn(ctx, fn, [v])

    def apply(self, ctx, f, args):
        """call a function value"""
        f = ctx.force(f)
        while isinstance(f, RefV):
            tgt = ctx.load(f)
            if isinstance(tgt, ClosureV):
                return self.call_closure(ctx, tgt, args, f)
            f = tgt
        if isinstance(f, ClosureV):
            return self.call_closure(ctx, f, args, None)
        if isinstance(f, FnV):
            return self.call_fn(ctx, f.fn, list(args))
        if isinstance(f, OpaqueV) and f.tag == "pyfn":
            return f.args[0](ctx, args)
        raise Undecided("call of %r" % (f,))

    def call_closure(self, ctx, cl, args, ref):
        b = self.prog.body(cl.key)
        if b is None:
            raise Undecided("closure body")
        t = self.types.get(b.locals[1])
        if t["k"] == "ref":
            if ref is None:
                root = ctx.new_root("C", cl)
                r = self.run_body(ctx, b, [RefV(root)] + list(args))
                if ctx.store.get(root) != cl:
                    raise Undecided("closure with state of its own")
                ctx.store.pop(root, None) if not self.escapes(r, root) else None
                return r
            return self.run_body(ctx, b, [ref] + list(args))
        return self.run_body(ctx, b, [cl] + list(args))

    def escapes(self, v, root):
        return self.mentions(v, root)
