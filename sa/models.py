"""Meaning of the standard library items that the analysed code may call.

Iterators are indexed sources; every consumer is a loop that goes through the loop summariser.
"""
from .terms import *
from .terms import Atom, Poly, _bvl
from .facts import *
from .values import *
from .values import VECLIKE, BOXLIKE
from .interp import PanicEx, Dead, SkipItem, StopItem

OPT = "std::option::Option"
EOB = "itertools::EitherOrBoth"
ORDP = "std::cmp::Ordering"
UNIT = TupV(())


def none():
    return AdtV(OPT, 0, ())


def some(v):
    return AdtV(OPT, 1, (v,))


# ------------------------------------------------------------------------------ references
def deref(ex, ctx, v):
    """the value behind any number of references"""
    n = 0
    while True:
        if isinstance(v, SymV):
            t = ex.types.T[v.ty] if v.ty is not None else {"k": "?"}
            if t["k"] == "ref":
                root = ("S", v.key)
                if root not in ctx.store:
                    ctx.store[root] = SymV(("d", v.key), t["e"])
                v = RefV(root)
            else:
                w = ctx.force(v)
                if w is v:
                    return v
                v = w
        if isinstance(v, RefV):
            v = ctx.load(v)
        elif not isinstance(v, SymV):
            return v
        n += 1
        if n > 12:
            raise Undecided("reference chain")


def refof(ex, ctx, v, tag="T"):
    """a reference to v (v itself if it is one)"""
    if isinstance(v, SymV) and v.ty is not None and ex.types.T[v.ty]["k"] == "ref":
        root = ("S", v.key)
        if root not in ctx.store:
            ctx.store[root] = SymV(("d", v.key), ex.types.T[v.ty]["e"])
        return RefV(root)
    if isinstance(v, RefV):
        return v
    return RefV(ctx.new_root(tag, v))


def cell(ex, ctx, r):
    """follow references until the cell that holds a non-reference"""
    r = refof(ex, ctx, r)
    n = 0
    while True:
        v = ctx.load(r)
        if isinstance(v, SymV) and v.ty is not None and ex.types.T[v.ty]["k"] == "ref":
            v = refof(ex, ctx, v)
        if not isinstance(v, RefV):
            return r, v
        r = v
        n += 1
        if n > 12:
            raise Undecided("reference chain")


# ------------------------------------------------------------------------------ iterators
def src_len(ex, ctx, s):
    k, a = s.kind, s.args
    if k == "range":
        if ctx.testl(("ge", a[1] - a[0])):
            return a[1] - a[0]
        return ZERO
    if k in ("ref", "val"):
        return a[1] if k == "ref" else a[0].n
    if k in ("map", "enumerate", "rev", "cloned", "filter", "filter_map", "inspect", "take_while", "map_while"):
        return src_len(ex, ctx, a[0])
    if k == "zip":
        n, m = src_len(ex, ctx, a[0]), src_len(ex, ctx, a[1])
        return n if ctx.testl(("ge", m - n)) else m
    if k == "zip_longest":
        n, m = src_len(ex, ctx, a[0]), src_len(ex, ctx, a[1])
        return m if ctx.testl(("ge", m - n)) else n
    if k == "skip":
        n = src_len(ex, ctx, a[0])
        return n - a[1] if ctx.testl(("ge", n - a[1])) else ZERO
    if k == "take":
        n = src_len(ex, ctx, a[0])
        return a[1] if ctx.testl(("ge", n - a[1])) else n
    if k == "step":
        n = src_len(ex, ctx, a[0])
        return ctx.simp(quot(n + a[1] - 1, a[1]))
    if k == "product":
        return src_len(ex, ctx, a[0]) * src_len(ex, ctx, a[1])
    if k == "flat":
        return src_len(ex, ctx, a[0]) * a[1]
    if k == "chain":
        return src_len(ex, ctx, a[0]) + src_len(ex, ctx, a[1])
    if k == "chunks":
        return a[2]
    if k == "pieces":
        return P(len(a))
    raise Undecided("length of iterator %s" % k)


def src_item(ex, ctx, s, i):
    k, a = s.kind, s.args
    if k == "range":
        return a[0] + i
    if k == "ref":
        return a[0].ext(("i", i))
    if k == "val":
        return ctx.force(ctx.seq_get(a[0], i))
    if k == "map":
        return ex.apply(ctx, a[1], [src_item(ex, ctx, a[0], i)])
    if k == "enumerate":
        return TupV((i, src_item(ex, ctx, a[0], i)))
    if k == "cloned":
        return deref1(ex, ctx, src_item(ex, ctx, a[0], i))
    if k == "rev":
        return src_item(ex, ctx, a[0], src_len(ex, ctx, a[0]) - 1 - i)
    if k == "zip":
        return TupV((src_item(ex, ctx, a[0], i), src_item(ex, ctx, a[1], i)))
    if k == "zip_longest":
        n, m = src_len(ex, ctx, a[0]), src_len(ex, ctx, a[1])
        inn, inm = ctx.testl(("ge", n - 1 - i)), ctx.testl(("ge", m - 1 - i))
        if inn and inm:
            return AdtV(EOB, 0, (src_item(ex, ctx, a[0], i), src_item(ex, ctx, a[1], i)))
        if inn:
            return AdtV(EOB, 1, (src_item(ex, ctx, a[0], i),))
        if inm:
            return AdtV(EOB, 2, (src_item(ex, ctx, a[1], i),))
        raise Dead()
    if k == "skip":
        return src_item(ex, ctx, a[0], i + a[1])
    if k == "take":
        return src_item(ex, ctx, a[0], i)
    if k == "step":
        return src_item(ex, ctx, a[0], i * a[1])
    if k == "product":
        m = src_len(ex, ctx, a[1])
        return TupV((src_item(ex, ctx, a[0], ctx.simp(quot(i, m))), src_item(ex, ctx, a[1], ctx.simp(rem(i, m)))))
    if k == "flat":
        L = a[1]
        it = src_item(ex, ctx, a[0], ctx.simp(quot(i, L)))
        it = into_iter(ex, ctx, it)
        return src_item(ex, ctx, it.src, it.pos + ctx.simp(rem(i, L)))
    if k == "chain":
        n = src_len(ex, ctx, a[0])
        if ctx.testl(("ge", n - 1 - i)):
            return src_item(ex, ctx, a[0], i)
        return src_item(ex, ctx, a[1], i - n)
    if k == "chunks":
        return a[0].ext(("sub", i * a[1], a[1]))
    if k == "filter":
        x = src_item(ex, ctx, a[0], i)
        if not ctx.test(ex.apply(ctx, a[1], [RefV(ctx.new_root("T", x))])):
            raise SkipItem()
        return x
    if k == "filter_map":
        x = ex.variant_of(ctx, ex.apply(ctx, a[1], [src_item(ex, ctx, a[0], i)]))
        if x.variant == 0:
            raise SkipItem()
        return x.fields[0]
    if k == "take_while":
        x = src_item(ex, ctx, a[0], i)
        if not ctx.test(ex.apply(ctx, a[1], [RefV(ctx.new_root("T", x))])):
            raise StopItem()
        return x
    if k == "map_while":
        x = ex.variant_of(ctx, ex.apply(ctx, a[1], [src_item(ex, ctx, a[0], i)]))
        if x.variant == 0:
            raise StopItem()
        return x.fields[0]
    if k == "inspect":
        x = src_item(ex, ctx, a[0], i)
        ex.apply(ctx, a[1], [RefV(ctx.new_root("T", x))])
        return x
    if k == "pieces":
        return a[int(i.const())]
    raise Undecided("item of iterator %s" % k)


def deref1(ex, ctx, v):
    if isinstance(v, SymV) and v.ty is not None and ex.types.T[v.ty]["k"] == "ref":
        v = refof(ex, ctx, v)
    if isinstance(v, RefV):
        return ctx.load(v)
    return v


def filtering(s):
    if s.kind in ("filter", "filter_map", "take_while", "map_while"):
        return True
    return any(filtering(x) for x in s.args if isinstance(x, Src))


def into_iter(ex, ctx, v):
    v0 = v
    if isinstance(v, SymV):
        v = ctx.force(v)
        if isinstance(v, SymV) and v.ty is not None and ex.types.T[v.ty]["k"] == "ref":
            v = refof(ex, ctx, v)
    if isinstance(v, IterV):
        return v
    if isinstance(v, Seq):
        return IterV(Src("val", (v,)))
    if isinstance(v, AdtV) and v.path == OPT:
        v = ex.variant_of(ctx, v)
        return IterV(Src("val", (LitSeq(v.fields),)))
    if isinstance(v, AdtV) and v.path in ("std::ops::Range", "core::ops::Range"):
        return IterV(Src("range", v.fields))
    if isinstance(v, AdtV) and v.path.endswith("RangeInclusive"):
        return IterV(Src("range", (v.fields[0], v.fields[1] + 1)))
    if isinstance(v, SetV):
        return IterV(Src("val", (v.seq(),)))
    if isinstance(v, RefV):
        x = ctx.load(v)
        if isinstance(x, RefV):
            return into_iter(ex, ctx, x)
        if isinstance(x, Seq):
            return IterV(Src("ref", (v, x.n)))
        if isinstance(x, IterV):
            return IterV(Src("byref", (v,)))
        if isinstance(x, SetV):
            r = ctx.new_root("T", x.seq())
            return IterV(Src("ref", (RefV(r), x.seq().n)))
    if isinstance(v, AdtV):
        return IterV(Src("custom", (RefV(ctx.new_root("T", v)), v.path)))
    raise Undecided("not iterable: %r" % (v0,))


def it_next(ex, ctx, ref, back=False):
    """(item or None); SkipItem after the cursor has moved when a filter drops the item"""
    it = ctx.load(ref)
    if isinstance(it, AdtV):
        it = into_iter(ex, ctx, it)
        if it.src.kind == "range":
            ctx.store_at(ref, it)
    if not isinstance(it, IterV):
        raise Undecided("next on %r" % (it,))
    s = it.src
    if s.kind == "byref":
        return it_next(ex, ctx, s.args[0], back)
    if s.kind == "custom":
        o = ex.variant_of(ctx, custom_next(ex, ctx, s))
        return o.fields[0] if o.variant else None
    if has_custom(s):
        return stream_next(ex, ctx, s)
    n = src_len(ex, ctx, s)
    if not ctx.testl(("ge", n - it.back - it.pos - 1)):
        return None
    if back:
        ctx.store_at(ref, IterV(s, it.pos, it.back + 1))
        return src_item(ex, ctx, s, n - 1 - it.back)
    ctx.store_at(ref, IterV(s, it.pos + 1, it.back))
    try:
        return src_item(ex, ctx, s, it.pos)
    except StopItem:
        ctx.store_at(ref, IterV(Src("val", (LitSeq(()),))))
        return None


def has_custom(s):
    return s.kind in ("custom", "byref") or any(has_custom(x) for x in s.args if isinstance(x, Src))


def custom_next(ex, ctx, s):
    ref, path = s.args
    for r in ex.prog.roots:
        if r.get("trait") == "std::iter::Iterator" and r["name"] == "next" and r.get("self") is not None:
            t = ex.types.T[r["self"]]
            if t["k"] == "adt" and t["path"] == path:
                return ex.call_fn(ctx, {"key": r["key"], "path": r["path"], "rpath": r["path"], "name": "next",
                                        "trait": "std::iter::Iterator", "body": True, "crate": "algeo"}, [ref])
    raise Undecided("iterator %s" % path)


def stream_next(ex, ctx, s):
    """next item of an iterator built over one with state of its own"""
    k, a = s.kind, s.args
    if k == "custom":
        o = ex.variant_of(ctx, custom_next(ex, ctx, s))
        return o.fields[0] if o.variant else None
    if k == "byref":
        return it_next(ex, ctx, a[0])
    if k == "map":
        x = stream_next(ex, ctx, a[0])
        return None if x is None else ex.apply(ctx, a[1], [x])
    if k == "cloned":
        x = stream_next(ex, ctx, a[0])
        return None if x is None else deref1(ex, ctx, x)
    if k == "filter":
        x = stream_next(ex, ctx, a[0])
        if x is None:
            return None
        if not ctx.test(ex.apply(ctx, a[1], [RefV(ctx.new_root("T", x))])):
            raise SkipItem()
        return x
    raise Undecided("iterator %s over a custom iterator" % k)


# ------------------------------------------------------------------------------ consumers
def consume(ex, ctx, it, label, state, body, rev=False):
    """a loop over the items of `it`; state: list of values kept in cells; body(ctx, refs, item,
    index) returns None to go on or a label to stop.  Returns (label or None, refs)"""
    it = into_iter(ex, ctx, it) if not isinstance(it, IterV) else it
    iref = RefV(ctx.new_root("T", it))
    refs = [RefV(ctx.new_root("T", v)) for v in state]

    def step(c):
        try:
            x = it_next(ex, c, iref, rev)
        except SkipItem:
            return ("back", None)
        if x is None:
            return ("exit", None)
        r = body(c, refs, x)
        return ("back", None) if r is None else ("exit", r)
    keep = [r.root for r in refs]
    lab = ex.loops.solve(ex, ctx, step, label, None)
    return lab, refs, iref


def vals(ctx, refs):
    return [ctx.load(r) for r in refs]


def m_collect(ex, ctx, fn, args):
    it = into_iter(ex, ctx, args[0])
    tgt = ex.types.T[fn["args"][1]] if len(fn.get("args") or []) > 1 else {"k": "?"}
    path = tgt.get("path", "")
    if path in (OPT, "std::result::Result") or path.endswith("String"):
        raise Undecided("collect into %s" % path)
    isset = "Set" in path.split("::")[-1]
    if path.endswith("Map"):
        raise Undecided("collect into a map")
    s = collect_seq(ex, ctx, it, tgt["args"][0] if path in VECLIKE else None)
    if isset:
        return SetV(s, path.split("::")[-1])
    return s


def collect_seq(ex, ctx, it, ety=None):
    if it.src.kind == "val" and not it.back.t:
        n = it.src.args[0].n
        return sub(it.src.args[0], it.pos, n - it.pos)

    def body(c, refs, x):
        s = c.load(refs[0])
        c.store_at(refs[0], cat([s, LitSeq([x])]))
    lab, refs, _ = consume(ex, ctx, it, "collect", [LitSeq(())], body)
    return ctx.load(refs[0])


def m_fold(ex, ctx, fn, args):
    f = refof_fn(ex, ctx, args[2])

    def body(c, refs, x):
        c.store_at(refs[0], ex.apply(c, f, [c.load(refs[0]), x]))
    lab, refs, _ = consume(ex, ctx, args[0], "fold", [args[1]], body)
    return ctx.load(refs[0])


def refof_fn(ex, ctx, f):
    """closures are called through a cell, so that their captured state persists"""
    f = ctx.force(f) if isinstance(f, SymV) else f
    if isinstance(f, ClosureV):
        return RefV(ctx.new_root("C", f))
    return f


def m_sum(ex, ctx, fn, args, name="sum"):
    sty = fn["args"][1] if len(fn.get("args") or []) > 1 else fn["args"][0]
    t = ex.types.T[sty]
    trait = "std::iter::Sum" if name == "sum" else "std::iter::Product"
    if t["k"] == "adt":
        for r in ex.prog.roots:
            if r.get("trait") == trait and r["name"] == name and r.get("self") == sty:
                return ex.call_fn(ctx, {"key": r["key"], "path": r["path"], "rpath": r["path"], "name": name,
                                        "trait": trait, "crate": "algeo", "body": True}, args[:1])
        raise Undecided("sum of %s" % t.get("s"))
    nm = t.get("name")

    def body(c, refs, x):
        a = c.load(refs[0])
        x = deref(ex, c, x)
        r = a + x if name == "sum" else a * x
        if nm in INT_BOUNDS and nm not in ("usize", "u64", "u128", "i64"):
            if not ex.fits(c, r, nm):
                raise PanicEx("overflow", "overflow in %s" % name)
        c.store_at(refs[0], r)
    lab, refs, _ = consume(ex, ctx, args[0], name, [ZERO if name == "sum" else ONE], body)
    return ctx.load(refs[0])


def m_product(ex, ctx, fn, args):
    return m_sum(ex, ctx, fn, args, "product")


def m_reduce(ex, ctx, fn, args):
    it = into_iter(ex, ctx, args[0])
    iref = RefV(ctx.new_root("T", it))
    x = first_item(ex, ctx, iref)
    if x is None:
        return none()
    return some(m_fold(ex, ctx, fn, [ctx.load(iref), x, args[1]]))


def first_item(ex, ctx, iref):
    it = ctx.load(iref)
    if filtering(it.src):
        lab, refs, ir = consume(ex, ctx, it, "first", [none()],
                                lambda c, refs, x: (c.store_at(refs[0], some(x)), "found")[1])
        if lab is None:
            return None
        ctx.store_at(iref, ctx.load(ir))
        return ctx.load(refs[0]).fields[0]
    return it_next(ex, ctx, iref)


def m_for_each(ex, ctx, fn, args):
    f = refof_fn(ex, ctx, args[1])

    def body(c, refs, x):
        ex.apply(c, f, [x])
    consume(ex, ctx, args[0], "for_each", [], body)
    return UNIT


def m_count(ex, ctx, fn, args):
    it = into_iter(ex, ctx, args[0])
    if not filtering(it.src) and not has_custom(it.src):
        return src_len(ex, ctx, it.src) - it.pos - it.back

    def body(c, refs, x):
        c.store_at(refs[0], c.load(refs[0]) + 1)
    lab, refs, _ = consume(ex, ctx, it, "count", [ZERO], body)
    return ctx.load(refs[0])


def iter_arg(ex, ctx, a):
    """methods taking &mut self on an iterator"""
    if isinstance(a, RefV):
        r, v = cell(ex, ctx, a)
        return v if isinstance(v, IterV) else into_iter(ex, ctx, v), r
    return into_iter(ex, ctx, a), None


def search(ex, ctx, args, label, pred, rev=False):
    """index (from the front) of the first item satisfying pred, or None; plus the item"""
    it, ref = iter_arg(ex, ctx, args[0])
    f = refof_fn(ex, ctx, args[1])

    def body(c, refs, x):
        p = pred(c, f, x)
        if c.test(p):
            c.store_at(refs[1], TupV((x,)))
            return "found"
        c.store_at(refs[0], c.load(refs[0]) + 1)
    lab, refs, iref = consume(ex, ctx, it, label, [ZERO, TupV(())], body, rev)
    if ref is not None:
        ctx.store_at(ref, ctx.load(iref))
    if lab is None:
        return None, None
    return ctx.load(refs[0]), ctx.load(refs[1]).fields[0]


def p_val(ex):
    return lambda c, f, x: ex.apply(c, f, [x])


def p_ref(ex):
    return lambda c, f, x: ex.apply(c, f, [RefV(c.new_root("T", x))])


def m_position(ex, ctx, fn, args):
    i, x = search(ex, ctx, args, "position", p_val(ex))
    return none() if i is None else some(i)


def m_rposition(ex, ctx, fn, args):
    it, _ = iter_arg(ex, ctx, args[0])
    n = src_len(ex, ctx, it.src)
    i, x = search(ex, ctx, [it, args[1]], "rposition", p_val(ex), rev=True)
    return none() if i is None else some(n - 1 - it.pos - it.back - i)


def m_find(ex, ctx, fn, args):
    i, x = search(ex, ctx, args, "find", p_ref(ex))
    return none() if i is None else some(x)


def m_rfind(ex, ctx, fn, args):
    i, x = search(ex, ctx, args, "rfind", p_ref(ex), rev=True)
    return none() if i is None else some(x)


def m_any(ex, ctx, fn, args):
    i, x = search(ex, ctx, args, "any", p_val(ex))
    return i is not None


def m_all(ex, ctx, fn, args):
    i, x = search(ex, ctx, args, "all", lambda c, f, x: f_not(ex.apply(c, f, [x])))
    return i is None


def m_find_map(ex, ctx, fn, args):
    it, ref = iter_arg(ex, ctx, args[0])
    r = RefV(ctx.new_root("T", IterV(Src("filter_map", (it.src, refof_fn(ex, ctx, args[1]))), it.pos, it.back)))
    x = first_item(ex, ctx, r)
    if ref is not None:
        j = ctx.load(r)
        ctx.store_at(ref, IterV(it.src, j.pos, j.back))
    return none() if x is None else some(x)


def m_last(ex, ctx, fn, args):
    it = into_iter(ex, ctx, args[0])
    if filtering(it.src) or has_custom(it.src):
        raise Undecided("last of a filtered iterator")
    n = src_len(ex, ctx, it.src) - it.back
    if not ctx.testl(("ge", n - it.pos - 1)):
        return none()
    return some(src_item(ex, ctx, it.src, n - 1))


def m_nth(ex, ctx, fn, args):
    r, it = cell(ex, ctx, args[0])
    if filtering(it.src) or has_custom(it.src):
        raise Undecided("nth of a filtered iterator")
    n = src_len(ex, ctx, it.src) - it.back
    i = it.pos + args[1]
    if not ctx.testl(("ge", n - i - 1)):
        ctx.store_at(r, IterV(it.src, n, it.back))
        return none()
    ctx.store_at(r, IterV(it.src, i + 1, it.back))
    return some(src_item(ex, ctx, it.src, i))


def order_of(ex, ctx, f, x, y, byref=True):
    if byref:
        x, y = RefV(ctx.new_root("T", x)), RefV(ctx.new_root("T", y))
    return ex.variant_of(ctx, ex.apply(ctx, f, [x, y])).variant


def rank_of(ex, ctx, it, f, key):
    """the comparison of two items as a difference of ranks: explores f on two symbolic indices and
    requires it to be a sign of rank(i) - rank(j) for one integer term rank"""
    from .interp import explore
    n = src_len(ex, ctx, it.src)
    at = (ctx.ns, ctx.pos)

    def work():
        panics = []
        r = compared(panics)
        return r + (panics,)

    def compared(panics):
        i, j = atom("ri", (ctx.ns, ctx.pos), "usize"), atom("rj", (ctx.ns, ctx.pos), "usize")
        F = ctx.assume(ctx.facts, [("ge", n - 1 - P(i)), ("ge", n - 1 - P(j))])
        if F is None:
            return ("empty",)

        def run(c):
            if key == "cmp":
                return order_of(ex, c, f, src_item(ex, c, it.src, it.pos + P(i)), src_item(ex, c, it.src, it.pos + P(j)))
            x = ex.apply(c, f, [RefV(c.new_root("T", src_item(ex, c, it.src, it.pos + P(i))))])
            y = ex.apply(c, f, [RefV(c.new_root("T", src_item(ex, c, it.src, it.pos + P(j))))])
            return ex.cmp3(c, deref(ex, c, x), deref(ex, c, y), "i64").variant
        outs = explore(ctx.prog, run, ctx.store, F, dict(ctx.opts, pure=True), ctx.fresh_id())
        rk = None
        if any(o.kind != "ret" for o in outs):
            # an outcome of its own; which pairs are compared is left open
            panics.append(next(o.msg for o in outs if o.kind != "ret"))
            outs = [o for o in outs if o.kind == "ret"]
        for o in outs:
            for l in o.facts.lits - F.lits:
                if l[0] in ("ge", "eq", "rgt", "req") and occurs(i, l[1]) and occurs(j, l[1]):
                    d = l[1]
                    # d = +-(rank(i) - rank(j)) [-1]
                    pos = {m: c for m, c in d.t if any(occurs(i, a) for a, _ in m)}
                    r = mk(pos)
                    if not occurs(j, r) and subst(r, {i: P(j)}) == -(d - r - P(dict(d.t).get((), 0))):
                        rk = -r if r.t[0][1] < 0 else r
        if rk is None:
            return ("bad", "comparison is not by rank: %r" % ([o.facts.lits - F.lits for o in outs][:3],))
        rj = subst(rk, {i: P(j)})
        sign = None
        for o in outs:
            # the outcome must follow from the ranks alone
            want = {0: o.facts.decide(("ge", rj - rk - 1)), 1: o.facts.decide(("eq", rk - rj)), 2: o.facts.decide(("ge", rk - rj - 1))}
            if want[o.val] is not True:
                rev = {0: want[2], 1: want[1], 2: want[0]}
                if rev[o.val] is not True:
                    return ("bad", "comparison does not follow the ranks")
                if o.val != 1:
                    if sign == 1:
                        return ("bad", "inconsistent comparison")
                    sign = -1
            elif o.val != 1:
                if sign == -1:
                    return ("bad", "inconsistent comparison")
                sign = 1
        return ("rank", i, rk if sign != -1 else -rk)
    r = ctx.memo(work)
    if r[0] == "bad":
        raise Undecided(r[1])
    if r[-1] and ctx.fork([[("b", ("comparison panics",) + at, True)], [("b", ("comparison panics",) + at, False)]]) == 0:
        raise PanicEx("compare", r[-1][0])
    return n, r[:-1]


def extremum(ex, ctx, it, f, key, want_max, last):
    it = into_iter(ex, ctx, it)
    if filtering(it.src) or has_custom(it.src):
        raise Undecided("maximum of a filtered iterator")
    n = src_len(ex, ctx, it.src) - it.back - it.pos
    if not ctx.testl(("ge", n - 1)):
        return None
    try:
        n2, r = rank_of(ex, ctx, it, f, key)
    except Undecided:
        if ctx.opts.get("peel") is None:
            raise
        return extremum_trace(ex, ctx, it, n, f, key, want_max, last)
    if r[0] == "empty":
        return None
    _, i, rk = r
    # m: position of the extremum; all others are not better, later (earlier) ones are worse
    bv, body = bind(i, rk)
    p = poly_rank(bv, body, n) if want_max and not it.pos.t else None
    if p is not None:
        m = lead(p)
        ctx.learn(rne(p))
        return src_item(ex, ctx, it.src, m)
    kind = ("argmax" if want_max else "argmin") + ("l" if last else "f")
    m = sym(kind, (n, bv, body), "usize")
    ctx.learn(("ge", n - 1 - m))
    s = 1 if want_max else -1
    rm = subst(rk, {i: m})
    d = (rm - rk) * s
    f1 = ctx.facts.add_forall(((i, ZERO, n),), ((("ge", d),),))
    if last:
        f1 = f1.add_forall(((i, m + 1, n),), ((("ge", d - 1),),))
    else:
        f1 = f1.add_forall(((i, ZERO, m),), ((("ge", d - 1),),))
    ctx.facts = f1
    return src_item(ex, ctx, it.src, it.pos + m)


def extremum_trace(ex, ctx, it, n, f, key, want_max, last):
    """the same by following the scan, for the first few elements only (trace partitioning)"""
    best = src_item(ex, ctx, it.src, it.pos)
    for k in range(1, ctx.opts["peel"] + 2):
        if not ctx.testl(("ge", n - k - 1)):
            return best
        if k > ctx.opts["peel"]:
            break
        x = src_item(ex, ctx, it.src, it.pos + k)
        if key == "cmp":
            c = order_of(ex, ctx, f, best, x)
        else:
            a, b = (ex.apply(ctx, f, [RefV(ctx.new_root("T", y))]) for y in (best, x))
            c = ex.cmp3(ctx, deref(ex, ctx, a), deref(ex, ctx, b), "i64").variant
        if c == (0 if want_max else 2) or c == 1 and last:
            best = x
    raise Dead()


def m_max_by(ex, ctx, fn, args):
    x = extremum(ex, ctx, args[0], refof_fn(ex, ctx, args[1]), "cmp", True, True)
    return none() if x is None else some(x)


def m_min_by(ex, ctx, fn, args):
    x = extremum(ex, ctx, args[0], refof_fn(ex, ctx, args[1]), "cmp", False, False)
    return none() if x is None else some(x)


def m_max_by_key(ex, ctx, fn, args):
    x = extremum(ex, ctx, args[0], refof_fn(ex, ctx, args[1]), "key", True, True)
    return none() if x is None else some(x)


def m_min_by_key(ex, ctx, fn, args):
    x = extremum(ex, ctx, args[0], refof_fn(ex, ctx, args[1]), "key", False, False)
    return none() if x is None else some(x)


def natural_cmp(ex):
    def go(ctx, xs):
        return ex.cmp3(ctx, deref(ex, ctx, xs[0]), deref(ex, ctx, xs[1]), "i64")
    return OpaqueV("pyfn", (go,))


def m_max(ex, ctx, fn, args):
    if len(args) == 2:
        return NotImplemented
    x = extremum(ex, ctx, args[0], natural_cmp(ex), "cmp", True, True)
    return none() if x is None else some(x)


def m_min(ex, ctx, fn, args):
    if len(args) == 2:
        return NotImplemented
    x = extremum(ex, ctx, args[0], natural_cmp(ex), "cmp", False, False)
    return none() if x is None else some(x)


def sort_seq(ex, ctx, s, f):
    """the sequence sorted ascending (stably) by the comparison"""
    it = IterV(Src("ref", (RefV(ctx.new_root("T", s)), s.n)))
    if s.n.const() is not None and s.n.const() <= 1:
        return s
    n, r = rank_of(ex, ctx, it, drop_ref(ex, f), "cmp")
    if r[0] == "empty":
        return s
    bv, body = bind(r[1], r[2])
    return SortSeq(s, (bv, body))


def drop_ref(ex, f):
    """items of a reference iterator are references already"""
    return OpaqueV("pyfn", (lambda ctx, xs: ex.apply(ctx, f, [ctx.load(x) for x in xs]),))


def m_sorted_by(ex, ctx, fn, args):
    it = into_iter(ex, ctx, args[0])
    f = refof_fn(ex, ctx, args[1])
    if it.src.kind == "ref":
        # a sorted list of references; kept as values, which is what clones of them see
        s = ctx.load(it.src.args[0])
        n, r = rank_of(ex, ctx, it, f, "cmp")
        if r[0] == "empty":
            return it
        bv, body = bind(r[1], r[2])
        ss = SortSeq(sub(s, it.pos, s.n - it.pos), (bv, body))
        return IterV(Src("ref", (RefV(ctx.new_root("T", ss)), ss.n)))
    s = collect_seq(ex, ctx, it)
    return IterV(Src("val", (sort_seq(ex, ctx, s, f),)))


def m_sort_by(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    ctx.store_at(r, sort_seq(ex, ctx, s, refof_fn(ex, ctx, args[1])))
    return UNIT


def m_try_fold(ex, ctx, fn, args):
    raise Undecided("try_fold")


def src_iter(kind, *extra):
    def f(ex, ctx, fn, args):
        it = into_iter(ex, ctx, args[0])
        if it.pos.t or it.back.t:
            s = it.src
            if has_custom(s):
                pass
            else:
                n = src_len(ex, ctx, s)
                if it.pos.t:
                    s = Src("skip", (s, it.pos))
                if it.back.t:
                    s = Src("take", (s, n - it.pos - it.back))
            it = IterV(s)
        rest = []
        for a in args[1:]:
            rest.append(a)
        if kind in ("zip", "zip_longest", "chain", "product"):
            o = into_iter(ex, ctx, rest[0])
            s2 = o.src
            if o.pos.t:
                s2 = Src("skip", (s2, o.pos))
            rest = [s2]
        elif kind in ("map", "filter", "filter_map", "take_while", "map_while", "inspect"):
            rest = [refof_fn(ex, ctx, rest[0])]
        if filtering(it.src) and kind not in ("map", "filter", "filter_map", "cloned", "inspect", "rev"):
            # positions after a filter are not positions of the source: materialise
            s = collect_seq(ex, ctx, it)
            it = IterV(Src("val", (s,)))
        if kind == "rev" and filtering(it.src):
            if any(x in ("take_while", "map_while") for x in kinds_of(it.src)):
                raise Undecided("reversed take_while")
            return IterV(push_rev(it.src))
        if len(rest) == 1 and isinstance(rest[0], Src) and filtering(rest[0]):
            rest = [Src("val", (collect_seq(ex, ctx, IterV(rest[0])),))]
        return IterV(Src(kind, (it.src,) + tuple(rest)))
    return f


def kinds_of(s):
    out = {s.kind}
    for x in s.args:
        if isinstance(x, Src):
            out |= kinds_of(x)
    return out


def push_rev(s):
    if s.kind in ("filter", "filter_map", "map", "cloned", "inspect"):
        return Src(s.kind, (push_rev(s.args[0]),) + s.args[1:])
    return Src("rev", (s,))


def m_flatten(ex, ctx, fn, args):
    it = into_iter(ex, ctx, args[0])
    return flatten_src(ex, ctx, it)


def flatten_src(ex, ctx, it):
    if it.pos.t or filtering(it.src) or has_custom(it.src):
        raise Undecided("flatten of a filtered iterator")
    from .interp import explore
    n = src_len(ex, ctx, it.src)

    def work():
        k = atom("fl", (ctx.ns, ctx.pos), "usize")
        F = ctx.facts.add(("ge", n - 1 - P(k)))
        if F is None:
            return ZERO

        def run(c):
            x = into_iter(ex, c, src_item(ex, c, it.src, P(k)))
            if filtering(x.src) or has_custom(x.src):
                raise Undecided("flatten of filtered iterators")
            return src_len(ex, c, x.src) - x.pos
        outs = explore(ctx.prog, run, ctx.store, F, ctx.opts, ctx.fresh_id())
        ls = {o.val for o in outs if o.kind == "ret"}
        if len(ls) == 1 and len(outs) == len([o for o in outs if o.kind == "ret"]):
            L = ls.pop()
            if not occurs(k, L):
                return L
        return None
    L = ctx.memo(work)
    if L is None:
        raise Undecided("flatten of iterators of varying length")
    return IterV(Src("flat", (it.src, L)))


def m_flat_map(ex, ctx, fn, args):
    it = src_iter("map")(ex, ctx, fn, args)
    return flatten_src(ex, ctx, it)


def m_next(ex, ctx, fn, args):
    r, v = cell(ex, ctx, args[0])
    x = it_next(ex, ctx, r)
    return none() if x is None else some(x)


def m_next_back(ex, ctx, fn, args):
    r, v = cell(ex, ctx, args[0])
    x = it_next(ex, ctx, r, True)
    return none() if x is None else some(x)


def m_peekable(ex, ctx, fn, args):
    raise Undecided("peekable")


def m_into_iter(ex, ctx, fn, args):
    return into_iter(ex, ctx, args[0])


def m_cloned(ex, ctx, fn, args):
    return src_iter("cloned")(ex, ctx, fn, args)


def m_skip(ex, ctx, fn, args):
    return src_iter("skip")(ex, ctx, fn, args)


def m_size(ex, ctx, fn, args):
    it, _ = iter_arg(ex, ctx, args[0])
    return src_len(ex, ctx, it.src) - it.pos - it.back


def m_partition(ex, ctx, fn, args):
    raise Undecided("partition")


def m_unzip(ex, ctx, fn, args):
    raise Undecided("unzip")


def m_cmp_iter(ex, ctx, fn, args):
    raise Undecided("lexicographic comparison of iterators")


def m_eq_iter(ex, ctx, fn, args):
    raise Undecided("comparison of iterators")


ITER = {
    "next": m_next, "next_back": m_next_back, "map": src_iter("map"), "filter": src_iter("filter"),
    "filter_map": src_iter("filter_map"), "enumerate": src_iter("enumerate"), "zip": src_iter("zip"),
    "rev": src_iter("rev"), "skip": src_iter("skip"), "take": src_iter("take"), "step_by": src_iter("step"),
    "cloned": src_iter("cloned"), "copied": src_iter("cloned"), "chain": src_iter("chain"),
    "take_while": src_iter("take_while"), "map_while": src_iter("map_while"), "inspect": src_iter("inspect"),
    "flatten": m_flatten, "flat_map": m_flat_map, "collect": m_collect, "fold": m_fold, "sum": m_sum,
    "product": m_product, "reduce": m_reduce, "for_each": m_for_each, "count": m_count,
    "position": m_position, "rposition": m_rposition, "find": m_find, "rfind": m_rfind, "any": m_any, "all": m_all,
    "find_map": m_find_map, "last": m_last, "nth": m_nth, "max_by": m_max_by, "min_by": m_min_by,
    "max_by_key": m_max_by_key, "min_by_key": m_min_by_key, "max": m_max, "min": m_min,
    "by_ref": lambda ex, ctx, fn, args: args[0], "len": m_size, "into_iter": m_into_iter,
    "fuse": lambda ex, ctx, fn, args: args[0], "try_fold": m_try_fold, "peekable": m_peekable,
    "partition": m_partition, "unzip": m_unzip, "cmp": m_cmp_iter, "partial_cmp": m_cmp_iter, "eq": m_eq_iter,
}
ITERTOOLS = {
    "zip_longest": src_iter("zip_longest"), "cartesian_product": src_iter("product"), "sorted_by": m_sorted_by,
    "collect_vec": lambda ex, ctx, fn, args: collect_seq(ex, ctx, into_iter(ex, ctx, args[0])),
    "zip_eq": src_iter("zip"),
}


# ------------------------------------------------------------------------------ sets
class SetV(Val):
    """the set of the elements of a sequence; kind HashSet or BTreeSet"""
    __slots__ = ("base", "kind")

    def __init__(self, base, kind):
        self.base, self.kind = base, kind

    def parts(self):
        return (self.base, self.kind)

    def rebuilt(self, p):
        return SetV(*p)

    def seq(self):
        if self.kind != "BTreeSet":
            raise Undecided("iteration order of a %s" % self.kind)
        return SortSeq(self.base, ("set",))


def m_set_contains(ex, ctx, fn, args):
    s = deref(ex, ctx, args[0])
    x = deref(ex, ctx, args[1])
    if not isinstance(s, SetV) or not isinstance(x, Poly):
        raise Undecided("set membership")
    return member(ex, ctx, s.base, x)


def member(ex, ctx, s, x):
    """x in s: decided through a scan of the sequence"""
    if isinstance(s, FiltSeq):
        # exists k < m: a keep case holds at k and its value is x
        bv = s.bv
        lits = []
        drop = [tuple(l) for l in s.drop]
        no = []
        for l, v in s.cases:
            if not isinstance(v, Poly):
                raise Undecided("membership among structured values")
            lits.append(tuple(l) + (norm_lit(("eq", v - x)),))
            no.append(tuple(l) + (norm_lit(("ne", v - x)),))
        key = ("exists", s.m, bv, tuple(lits))
        k = ctx.fork([[("b", key, True)], [("b", key, False)]])
        if k == 1:
            ctx.facts = ctx.facts.add_forall(((bv, ZERO, s.m),), tuple(drop) + tuple(no))
            return False
        w = sym("wit", (s.m, bv, tuple(lits)), "usize")
        ctx.learn(("ge", s.m - 1 - w))
        S = Subst({bv: w})
        j = ctx.fork([list(S.any(l)) for l in lits])
        return True
    if isinstance(s, LitSeq):
        for v in s.items:
            if ctx.testl(eq(v, x)):
                return True
        return False
    if isinstance(s, CompSeq):
        lits = tuple(tuple(l) + (norm_lit(("eq", v - x)),) for l, v in s.cases)
        no = tuple(tuple(l) + (norm_lit(("ne", v - x)),) for l, v in s.cases)
        key = ("exists", s.n, s.bv, lits)
        k = ctx.fork([[("b", key, True)], [("b", key, False)]])
        if k == 1:
            ctx.facts = ctx.facts.add_forall(((s.bv, ZERO, s.n),), no)
            return False
        w = sym("wit", (s.n, s.bv, lits), "usize")
        ctx.learn(("ge", s.n - 1 - w))
        S = Subst({s.bv: w})
        ctx.fork([list(S.any(l)) for l in lits])
        return True
    if isinstance(s, SymSeq):
        bv = atom("bv", (1 + max(s.bvl, _bvl(x)),), "usize")
        v = pure_get(s, P(bv))
        if isinstance(v, Poly):
            hit, no = (norm_lit(("eq", v - x)),), (norm_lit(("ne", v - x)),)
            k = ctx.fork([[("b", ("exists", s.n, bv, (hit,)), True)], [("b", ("exists", s.n, bv, (hit,)), False)]])
            if k == 1:
                ctx.facts = ctx.facts.add_forall(((bv, ZERO, s.n),), (no,))
                return False
            w = sym("wit", (s.n, bv, (hit,)), "usize")
            ctx.learn(("ge", s.n - 1 - w))
            ctx.learn(Subst({bv: w}).any(hit)[0])
            return True
    raise Undecided("membership in %s" % type(s).__name__)


# ------------------------------------------------------------------------------ vectors and slices
def m_vec_new(ex, ctx, fn, args):
    return LitSeq(())


def m_from_elem(ex, ctx, fn, args):
    v, n = args
    k = atom("fe", (), "usize")
    c = n.const()
    if c is not None and c <= 8:
        return LitSeq([v] * int(c))
    return comp(n, k, (((), v),))


def m_len(ex, ctx, fn, args):
    v = deref(ex, ctx, args[0])
    if isinstance(v, SetV):
        raise Undecided("size of a set")
    if isinstance(v, IterV):
        return m_size(ex, ctx, fn, args)
    if not isinstance(v, Seq):
        raise Undecided("len of %r" % (v,))
    return v.n


def m_is_empty(ex, ctx, fn, args):
    v = deref(ex, ctx, args[0])
    if not isinstance(v, Seq):
        raise Undecided("is_empty of %r" % (v,))
    return f_lit(("ge", -v.n))


def m_push(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    ctx.store_at(r, cat([s, LitSeq([args[1]])]))
    return UNIT


def drop_last(ctx, s):
    if isinstance(s, LitSeq):
        return LitSeq(s.items[:-1])
    if isinstance(s, CatSeq) and isinstance(s.segs[-1], LitSeq):
        return cat(s.segs[:-1] + (LitSeq(s.segs[-1].items[:-1]),))
    return sub(s, ZERO, s.n - 1)


def m_pop(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    if not ctx.testl(("ge", s.n - 1)):
        return none()
    x = ctx.force(ctx.seq_get(s, s.n - 1))
    ctx.store_at(r, drop_last(ctx, s))
    return some(x)


def m_append(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    r2, s2 = cell(ex, ctx, args[1])
    ctx.store_at(r, cat([s, s2]))
    ctx.store_at(r2, LitSeq(()))
    return UNIT


def m_extend(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    if isinstance(s, SetV):
        raise Undecided("extend of a set")
    t = collect_seq(ex, ctx, into_iter(ex, ctx, args[1]))
    # extend from references copies
    if t.n.const() != 0:
        t = deref_items(ex, ctx, t)
    ctx.store_at(r, cat([ctx.load(r), t]))
    return UNIT


def deref_items(ex, ctx, t):
    if isinstance(t, LitSeq):
        return LitSeq([deref1(ex, ctx, x) for x in t.items])
    if isinstance(t, CompSeq) and any(isinstance(v, RefV) for _, v in t.cases):
        return collect_seq(ex, ctx, IterV(Src("cloned", (Src("val", (t,)),))))
    return t


def m_resize(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    n, v = args[1], args[2]
    if ctx.testl(("ge", n - s.n)):
        ctx.store_at(r, cat([s, m_from_elem(ex, ctx, fn, [v, n - s.n])]))
    else:
        ctx.store_at(r, sub(s, ZERO, n))
    return UNIT


def m_truncate(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    n = args[1]
    if ctx.testl(("ge", s.n - n)):
        ctx.store_at(r, sub(s, ZERO, n))
    return UNIT


def m_clear(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    ctx.store_at(r, LitSeq(()))
    return UNIT


def in_bounds(ctx, i, n, what):
    if not ctx.testl(("ge", n - 1 - i)):
        raise PanicEx("bounds", what)


def m_remove(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    i = args[1]
    in_bounds(ctx, i, s.n, "removal index out of bounds")
    x = ctx.force(ctx.seq_get(s, i))
    ctx.store_at(r, RemSeq(s, i))
    return x


def m_swap_remove(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    i = args[1]
    in_bounds(ctx, i, s.n, "swap_remove index out of bounds")
    x = ctx.force(ctx.seq_get(s, i))
    last = ctx.force(ctx.seq_get(s, s.n - 1))
    ctx.store_at(r, sub(ctx.seq_upd(s, i, last), ZERO, s.n - 1))
    return x


def m_insert(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    if isinstance(s, SetV):
        raise Undecided("insertion into a set")
    i = args[1]
    if not ctx.testl(("ge", s.n - i)):
        raise PanicEx("bounds", "insertion index out of bounds")
    ctx.store_at(r, cat([sub(s, ZERO, i), LitSeq([args[2]]), sub(s, i, s.n - i)]))
    return UNIT


def m_swap(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    i, j = args[1], args[2]
    in_bounds(ctx, i, s.n, "swap index out of bounds")
    in_bounds(ctx, j, s.n, "swap index out of bounds")
    x, y = ctx.force(ctx.seq_get(s, i)), ctx.force(ctx.seq_get(s, j))
    if x == y:
        return UNIT
    base = r.path[-1][1] if r.path and r.path[-1][0] == "sub" else None
    if base is not None:
        raise Undecided("swap in a subslice")
    s = ctx.seq_upd(s, i, y)
    ctx.store_at(r, ctx.seq_upd(s, j, x))
    return UNIT


def m_retain(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    f = refof_fn(ex, ctx, args[1])
    src = Src("ref", (RefV(ctx.new_root("T", s)), s.n))

    def body(c, refs, x):
        if c.test(ex.apply(c, f, [x])):
            c.store_at(refs[0], cat([c.load(refs[0]), LitSeq([c.load(x)])]))
    lab, refs, _ = consume(ex, ctx, IterV(src), "retain", [LitSeq(())], body)
    ctx.store_at(r, ctx.load(refs[0]))
    return UNIT


def m_iter(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    if isinstance(s, SetV):
        return into_iter(ex, ctx, r)
    if not isinstance(s, Seq):
        raise Undecided("iter of %r" % (s,))
    return IterV(Src("ref", (r, s.n)))


def m_get(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    i = args[1]
    if not isinstance(i, Poly) or not isinstance(s, Seq):
        raise Undecided("get")
    if not ctx.testl(("ge", s.n - 1 - i)):
        return none()
    return some(r.ext(("i", i)))


def m_first(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    if not ctx.testl(("ge", s.n - 1)):
        return none()
    return some(r.ext(("i", ZERO)))


def m_lastel(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    if not ctx.testl(("ge", s.n - 1)):
        return none()
    return some(r.ext(("i", s.n - 1)))


def m_index(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    i = args[1]
    if not isinstance(s, Seq):
        return NotImplemented
    if isinstance(i, IterV) and i.src.kind == "range":
        lo, hi = i.src.args
    elif isinstance(i, AdtV) and i.path.endswith("RangeFrom"):
        lo, hi = i.fields[0], s.n
    elif isinstance(i, AdtV) and i.path.endswith("RangeTo"):
        lo, hi = ZERO, i.fields[0]
    elif isinstance(i, AdtV) and i.path.endswith("RangeToInclusive"):
        lo, hi = ZERO, i.fields[0] + 1
    elif isinstance(i, AdtV) and i.path.endswith("RangeFull"):
        lo, hi = ZERO, s.n
    elif isinstance(i, Poly):
        in_bounds(ctx, i, s.n, "index out of bounds")
        return r.ext(("i", i))
    else:
        raise Undecided("index by %r" % (i,))
    if not ctx.testl(("ge", hi - lo)) or not ctx.testl(("ge", s.n - hi)):
        raise PanicEx("bounds", "slice range out of bounds")
    return r.ext(("sub", lo, hi - lo))


def m_chunks(exact):
    def f(ex, ctx, fn, args):
        r, s = cell(ex, ctx, args[0])
        c = args[1]
        if not ctx.testl(("ge", c - 1)):
            raise PanicEx("assert", "chunk size must be non-zero")
        q = ctx.simp(quot(s.n, c))
        if not exact and not ctx.testl(("eq", q * c - s.n)):
            raise Undecided("ragged chunks")
        return IterV(Src("chunks", (r, c, q)))
    return f


def m_split_at(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    i = args[1]
    if not ctx.testl(("ge", s.n - i)):
        raise PanicEx("bounds", "split_at")
    return TupV((r.ext(("sub", ZERO, i)), r.ext(("sub", i, s.n - i))))


def m_to_vec(ex, ctx, fn, args):
    return deref(ex, ctx, args[0])


def m_same(ex, ctx, fn, args):
    return args[0]


def m_reverse(ex, ctx, fn, args):
    r, s = cell(ex, ctx, args[0])
    k = atom("rv", (), "usize")
    if isinstance(s, LitSeq):
        ctx.store_at(r, LitSeq(s.items[::-1]))
        return UNIT
    t = collect_seq(ex, ctx, IterV(Src("rev", (Src("val", (s,)),))))
    ctx.store_at(r, t)
    return UNIT


def m_slice_contains(ex, ctx, fn, args):
    s = deref(ex, ctx, args[0])
    x = deref(ex, ctx, args[1])
    if isinstance(s, SetV):
        return m_set_contains(ex, ctx, fn, args)
    if isinstance(x, Poly):
        return member(ex, ctx, s, x)
    raise Undecided("contains")


VEC = {
    "new": m_vec_new, "with_capacity": m_vec_new, "len": m_len, "is_empty": m_is_empty, "push": m_push,
    "pop": m_pop, "append": m_append, "truncate": m_truncate, "clear": m_clear, "remove": m_remove,
    "swap_remove": m_swap_remove, "insert": m_insert, "retain": m_retain, "resize": m_resize,
    "reserve": lambda ex, ctx, fn, args: UNIT, "shrink_to_fit": lambda ex, ctx, fn, args: UNIT,
    "extend_from_slice": m_extend, "as_slice": m_same, "as_mut_slice": m_same, "drain": None,
    "into_boxed_slice": m_same,
}
SLICE = {
    "len": m_len, "is_empty": m_is_empty, "iter": m_iter, "iter_mut": m_iter, "swap": m_swap, "get": m_get,
    "get_mut": m_get, "first": m_first, "last": m_lastel, "sort_by": m_sort_by, "sort_unstable_by": None,
    "chunks_exact": m_chunks(True), "chunks_exact_mut": m_chunks(True), "chunks": m_chunks(False),
    "chunks_mut": m_chunks(False), "to_vec": m_to_vec, "into_vec": m_same, "reverse": m_reverse,
    "split_at": m_split_at, "split_at_mut": m_split_at, "contains": m_slice_contains,
    "first_mut": m_first, "last_mut": m_lastel, "to_owned": m_to_vec,
}


# ------------------------------------------------------------------------------ numbers
def int_method(name, tname):
    signed = tname[0] == "i"

    def f(ex, ctx, fn, args):
        a = [deref(ex, ctx, x) for x in args]
        x = a[0]
        y = a[1] if len(a) > 1 else None
        lo, hi = INT_BOUNDS.get(tname, (None, None))

        def fits(r):
            if tname in ("i64", "isize", "i128"):
                return True
            return ex.fits(ctx, r, tname)
        if name == "abs":
            return x if ctx.testl(("ge", x)) else -x
        if name == "unsigned_abs":
            return x if ctx.testl(("ge", x)) else -x
        if name == "signum":
            k = ctx.fork([[("ge", x - 1)], [norm_lit(("eq", x))], [("ge", -x - 1)]])
            return (ONE, ZERO, P(-1))[k]
        if name == "is_negative":
            return f_lit(("ge", -x - 1))
        if name == "is_positive":
            return f_lit(("ge", x - 1))
        if name == "pow":
            return ctx_pow(ctx, x, y, tname)
        if name in ("min", "max"):
            big = ctx.testl(("ge", x - y - (0 if name == "min" else 1)))
            # ties: min returns the first, max the second argument; equal numbers anyway
            return (y if big else x) if name == "min" else (x if big else y)
        if name in ("checked_add", "checked_sub", "checked_mul"):
            r = x + y if name.endswith("add") else x - y if name.endswith("sub") else x * y
            if tname in ("usize", "u64", "u128") and not name.endswith("sub"):
                return some(r)
            return some(r) if fits(r) else none()
        if name in ("saturating_add", "saturating_sub", "saturating_mul"):
            r = x + y if name.endswith("add") else x - y if name.endswith("sub") else x * y
            if lo is not None and not ctx.testl(("ge", r - lo)):
                return P(lo)
            if hi is not None and not ctx.testl(("ge", P(hi) - r)):
                return P(hi)
            return r
        if name in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
            r = x + y if name.endswith("add") else x - y if name.endswith("sub") else x * y
            if fits(r):
                return r
            ctx.flags.add("wrapped")
            return sym("wrap", (r, tname), tname)
        if name in ("overflowing_add", "overflowing_sub", "overflowing_mul"):
            r = x + y if name.endswith("add") else x - y if name.endswith("sub") else x * y
            if fits(r):
                return TupV((r, False))
            return TupV((sym("wrap", (r, tname), tname), True))
        if name == "abs_diff":
            return x - y if ctx.testl(("ge", x - y)) else y - x
        if name == "rem_euclid":
            if ctx.testl(eq(y)):
                raise PanicEx("divzero", "rem_euclid by zero")
            r = ctx.simp(rem(x, y))
            if ctx.testl(("ge", r)):
                return r
            return r + y if ctx.testl(("ge", y)) else r - y
        if name == "cmp":
            return ex.cmp3(ctx, x, y, tname)
        if name == "partial_cmp":
            return some(ex.cmp3(ctx, x, y, tname))
        if name in ("eq", "ne", "lt", "le", "gt", "ge"):
            return ex.compare(ctx, name.capitalize(), x, y, tname)
        if name == "clone":
            return x
        if name in ("div_euclid", "is_power_of_two", "leading_zeros", "trailing_zeros", "isqrt", "ilog2", "ilog10", "count_ones"):
            raise Undecided("integer method %s" % name)
        if name == "div_ceil":
            return ctx.simp(quot(x + y - 1, y))
        return NotImplemented
    return f


def ctx_pow(ctx, b, e, tname):
    if not isinstance(b, Poly) or not isinstance(e, Poly):
        raise Undecided("power")
    ce = e.const()
    if ce is None:
        if ctx.testl(("eq", e)):
            return ONE
        # integer powers: the sign of the base decides the sign of the result
        if tname[0] in "iu":
            if ctx.testl(("eq", b)):
                return ZERO
    return power(b, e)


def float_method(name, tname):
    def f(ex, ctx, fn, args):
        a = [deref(ex, ctx, x) for x in args]
        x = a[0]
        y = a[1] if len(a) > 1 else None
        if name == "abs":
            return x if ctx.testl(("rge", x)) else -x
        if name == "recip":
            return ex.fdiv(ctx, ONE, x)
        if name == "powi":
            return field_pow(ex, ctx, x, y)
        if name == "is_sign_negative":
            # differs from x < 0 only at the negative zero
            ctx.flags.add("signbit")
            return f_lit(("rgt", -x))
        if name == "is_sign_positive":
            ctx.flags.add("signbit")
            return f_lit(("rge", x))
        if name == "partial_cmp":
            return some(ex.cmp3(ctx, x, y, tname))
        if name == "total_cmp":
            ctx.flags.add("totalcmp")
            return ex.cmp3(ctx, x, y, tname)
        if name in ("eq", "ne", "lt", "le", "gt", "ge"):
            return ex.compare(ctx, name.capitalize(), x, y, tname)
        if name in ("max", "min"):
            c = ctx.testl(("rge", x - y))
            return (x if c else y) if name == "max" else (y if c else x)
        if name == "mul_add":
            return x * y + a[2]
        if name == "clone":
            return x
        if name in ("is_nan", "is_infinite"):
            return False
        if name == "is_finite":
            return True
        return NotImplemented
    return f


def field_pow(ex, ctx, x, e):
    """x to the integer power e in a field"""
    if not isinstance(x, Poly) or not isinstance(e, Poly):
        raise Undecided("field power")
    c = e.const()
    if c is not None:
        c = int(c)
        if 0 <= c <= 12:
            return x ** c
        if c < 0 and c >= -12:
            return ex.fdiv(ctx, ONE, x ** (-c))
    k = ctx.fork([[("ge", e - 1)], [eq(e)], [("ge", -e - 1)]])
    if k == 1:
        return ONE
    if k == 2:
        if ctx.testl(req(x)):
            ctx.flags.add("div0")
            return sym("undef", ("powi", x, e), "F")
        return inv_poly(power(x, -e))
    return power(x, e)


# ------------------------------------------------------------------------------ operators
def binary(op):
    def f(ex, ctx, fn, args):
        x, y = deref(ex, ctx, args[0]), deref(ex, ctx, args[1])
        if not isinstance(x, Poly) or not isinstance(y, Poly):
            return NotImplemented
        tn = scalar_name(ex, fn)
        if op == "add":
            r = x + y
        elif op == "sub":
            r = x - y
        elif op == "mul":
            r = x * y
        elif op == "div":
            if tn in FIELD_SORTS or tn is None:
                return ex.fdiv(ctx, x, y)
            if ctx.testl(eq(y)):
                raise PanicEx("divzero", "division by zero")
            return ctx.simp(quot(x, y))
        else:
            if ctx.testl(eq(y)):
                raise PanicEx("divzero", "remainder by zero")
            return ctx.simp(rem(x, y))
        if tn in FIELD_SORTS or tn is None:
            return r
        if ctx.test(ex.overflow(r, tn, op.capitalize())):
            raise PanicEx("overflow", "arithmetic overflow in %s" % op)
        return r
    return f


def bitwise(op):
    def f(ex, ctx, fn, args):
        x, y = deref(ex, ctx, args[0]), deref(ex, ctx, args[1])
        tn = scalar_name(ex, fn)
        ty = next((k for k, t in enumerate(ex.types.T) if t.get("name") == tn), None) if tn else None
        if not isinstance(x, Poly) or not isinstance(y, Poly) or ty is None:
            return NotImplemented
        return ex.binop(ctx, op, x, y, ty)
    return f


def scalar_name(ex, fn):
    t = fn.get("self")
    if t is None and fn.get("args"):
        t = fn["args"][0]
    while t is not None:
        x = ex.types.T[t]
        if x["k"] == "ref":
            t = x["e"]
            continue
        return x.get("name")
    return None


def assign_op(op):
    b = binary(op)

    def f(ex, ctx, fn, args):
        r, x = cell(ex, ctx, args[0])
        if not isinstance(x, Poly):
            return NotImplemented
        v = b(ex, ctx, fn, [x, args[1]])
        ctx.store_at(r, v)
        return UNIT
    return f


def m_neg(ex, ctx, fn, args):
    x = deref(ex, ctx, args[0])
    if not isinstance(x, Poly):
        return NotImplemented
    return -x


def struct_eq(ex, ctx, x, y, name="i64"):
    """structural equality as a formula (numbers, tuples, plain structs)"""
    x, y = deref(ex, ctx, x), deref(ex, ctx, y)
    if isinstance(x, Poly) and isinstance(y, Poly):
        if name in FIELD_SORTS or is_field(x) or is_field(y):
            return f_lit(req(x, y))
        return f_lit(eq(x, y))
    if isinstance(x, (bool, tuple)) and isinstance(y, (bool, tuple)):
        return ex.compare(ctx, "Eq", x, y, "bool")
    if isinstance(x, TupV) and isinstance(y, TupV):
        return f_and([struct_eq(ex, ctx, a, b, name) for a, b in zip(x.fields, y.fields)])
    if isinstance(x, AdtV) and isinstance(y, AdtV) and x.path == y.path:
        if x.variant != y.variant:
            return False
        return f_and([struct_eq(ex, ctx, a, b, name) for a, b in zip(x.fields, y.fields)])
    if isinstance(x, Seq) and isinstance(y, Seq):
        return seq_eq(ex, ctx, x, y)
    raise Undecided("equality of %r and %r" % (x, y))


def seq_eq(ex, ctx, x, y):
    if x == y:
        return True
    if repr(x) > repr(y):
        x, y = y, x
    return ("lit", ("b", ("seqeq", x, y), True))


def m_eq(negate):
    def f(ex, ctx, fn, args):
        x, y = deref(ex, ctx, args[0]), deref(ex, ctx, args[1])
        tn = scalar_name(ex, fn)
        if isinstance(x, (Poly, Seq, TupV, bool, tuple)):
            if isinstance(x, (TupV, Seq)) and not simple(ex, x):
                return NotImplemented
            r = struct_eq(ex, ctx, x, y, tn)
            return f_not(r) if negate else r
        if isinstance(x, AdtV) and x.path == ORDP:
            return (x.variant == y.variant) != negate
        return NotImplemented
    return f


def simple(ex, x):
    if isinstance(x, Seq):
        if isinstance(x, SymSeq) and x.ety is not None:
            return ex.types.T[x.ety]["k"] in ("int", "uint", "param", "float")
        return True
    return all(isinstance(f, (Poly, bool, tuple, TupV, SymV)) for f in x.fields)


def m_cmp(kind):
    def f(ex, ctx, fn, args):
        if len(args) < 2:
            return NotImplemented
        x, y = deref(ex, ctx, args[0]), deref(ex, ctx, args[1])
        tn = scalar_name(ex, fn) or "i64"
        if isinstance(x, Poly) and isinstance(y, Poly):
            if kind == "cmp":
                return ex.cmp3(ctx, x, y, tn)
            if kind == "partial_cmp":
                return some(ex.cmp3(ctx, x, y, tn))
            if kind in ("max", "min"):
                fld = tn in FIELD_SORTS
                c = ctx.testl(("rge" if fld else "ge", x - y))
                big, small = (x, y) if c else (y, x)
                return big if kind == "max" else small
            if kind == "clamp":
                return NotImplemented
            return ex.compare(ctx, kind.capitalize(), x, y, tn)
        if kind in ("lt", "le", "gt", "ge", "partial_cmp", "cmp") and isinstance(x, AdtV) and isinstance(y, AdtV) and not fn.get("body"):
            # provided methods of the comparison traits: through the local implementation
            return cmp_adt(ex, ctx, kind, x, y, args)
        if isinstance(x, TupV) and kind in ("cmp", "partial_cmp"):
            for a, b in zip(x.fields, y.fields):
                o = ex.cmp3(ctx, deref(ex, ctx, a), deref(ex, ctx, b), "i64")
                if o.variant != 1:
                    break
            return o if kind == "cmp" else some(o)
        if kind in ("max", "min") and isinstance(x, AdtV):
            o = cmp_adt(ex, ctx, "cmp", x, y, args)
            if kind == "max":
                return x if o.variant == 2 else y
            return y if o.variant == 2 else x
        return NotImplemented
    return f


def cmp_adt(ex, ctx, kind, x, y, args):
    want = "cmp" if kind == "cmp" else "partial_cmp"
    tr = "std::cmp::Ord" if kind == "cmp" else "std::cmp::PartialOrd"
    for r in ex.prog.roots:
        if r.get("trait") == tr and r["name"] == want and r.get("self") is not None:
            t = ex.types.T[r["self"]]
            if t["k"] == "adt" and t["path"] == x.path:
                rx, ry = RefV(ctx.new_root("T", x)), RefV(ctx.new_root("T", y))
                o = ex.variant_of(ctx, ex.call_fn(ctx, {"key": r["key"], "path": r["path"], "rpath": r["path"],
                                                        "name": want, "trait": tr, "crate": "algeo", "body": True}, [rx, ry]))
                if kind in ("cmp", "partial_cmp"):
                    return o
                if o.variant == 0:
                    return False
                v = ex.variant_of(ctx, o.fields[0]).variant
                return {"lt": v == 0, "le": v <= 1, "gt": v == 2, "ge": v >= 1}[kind]
    raise Undecided("comparison of %s" % x.path)


def m_clone(ex, ctx, fn, args):
    v = args[0]
    if isinstance(v, SymV) and v.ty is not None and ex.types.T[v.ty]["k"] == "ref":
        v = refof(ex, ctx, v)
    if not isinstance(v, RefV):
        return NotImplemented
    x = ctx.load(v)
    if isinstance(x, SymV):
        return x
    if isinstance(x, AdtV) and fn.get("body") and fn.get("crate") == "algeo":
        return NotImplemented
    return x


def m_deref(ex, ctx, fn, args):
    r = refof(ex, ctx, args[0])
    v = ctx.load(r)
    if isinstance(v, RefV):
        return v
    return r


# ------------------------------------------------------------------------------ the abstract field
def fld(name):
    def f(ex, ctx, fn, args):
        a = [deref(ex, ctx, x) for x in args]
        if not all(isinstance(x, Poly) for x in a):
            return NotImplemented
        x = a[0]
        if name == "is_zero":
            return f_lit(req(x))
        if name == "is_one":
            return f_lit(req(x, 1))
        if name == "inv":
            return ex.fdiv(ctx, ONE, x)
        if name == "powi32":
            return field_pow(ex, ctx, x, a[1])
        if name == "epsilon_equals":
            return f_lit(req(x, a[1]))
        if name == "stability_cmp":
            return some(ex.cmp3(ctx, stab(x), stab(a[1]), "i64"))
        return NotImplemented
    return f


def stab(x):
    """rank of a field element under the stability comparison; zero ranks lowest (property C08)"""
    return ZERO if not x.t else sym("stab", (x,), "nat")


FIELD = {"is_zero": fld("is_zero"), "is_one": fld("is_one"), "inv": fld("inv"), "powi32": fld("powi32"),
         "epsilon_equals": fld("epsilon_equals"), "stability_cmp": fld("stability_cmp")}


# ------------------------------------------------------------------------------ panics, memory
def m_panic(ex, ctx, fn, args):
    msg = args[0].s if args and isinstance(args[0], StrV) else ""
    raise PanicEx("panic", str(msg))


def m_unwrap_failed(ex, ctx, fn, args):
    raise PanicEx("unwrap", "unwrap on an absent value")


def m_mem_swap(ex, ctx, fn, args):
    r1, r2 = refof(ex, ctx, args[0]), refof(ex, ctx, args[1])
    x, y = ctx.load(r1), ctx.load(r2)
    ctx.store_at(r1, y)
    ctx.store_at(r2, x)
    return UNIT


def m_mem_replace(ex, ctx, fn, args):
    r = refof(ex, ctx, args[0])
    x = ctx.load(r)
    ctx.store_at(r, args[1])
    return x


def m_mem_take(ex, ctx, fn, args):
    r = refof(ex, ctx, args[0])
    x = ctx.load(r)
    if isinstance(x, Seq):
        d = LitSeq(())
    elif isinstance(x, Poly):
        d = ZERO
    elif isinstance(x, AdtV) and x.path == OPT:
        d = none()
    else:
        d = default_of(ex, ctx, fn["args"][0])
    ctx.store_at(r, d)
    return x


def default_of(ex, ctx, ty):
    t = ex.types.T[ty]
    if t["k"] in ("int", "uint", "float"):
        return ZERO
    if t["k"] == "bool":
        return False
    if t["k"] == "adt":
        if t["path"] in VECLIKE:
            return LitSeq(())
        if t["path"] == OPT:
            return none()
        for r in ex.prog.roots:
            if r.get("trait") == "std::default::Default" and r["name"] == "default" and r.get("self") is not None:
                t2 = ex.types.T[r["self"]]
                if t2["k"] == "adt" and t2["path"] == t["path"]:
                    return ex.call_fn(ctx, {"key": r["key"], "path": r["path"], "rpath": r["path"], "name": "default",
                                            "trait": "std::default::Default", "crate": "algeo", "body": True}, [])
    if t["k"] == "tuple":
        return TupV([default_of(ex, ctx, e) for e in t["es"]])
    raise Undecided("default of %s" % t.get("s"))


def m_default(ex, ctx, fn, args):
    if fn.get("body") and fn.get("crate") == "algeo":
        return NotImplemented
    ty = fn.get("self")
    if ty is None:
        ty = fn["args"][0]
    return default_of(ex, ctx, ty)


def m_box_new(ex, ctx, fn, args):
    return args[0]


def m_new_uninit(ex, ctx, fn, args):
    return RefV(ctx.new_root("B", OpaqueV("uninit")))


def m_assume_init_vec(ex, ctx, fn, args):
    v = args[0]
    if isinstance(v, RefV):
        v = ctx.load(v)
    return v


def m_from(ex, ctx, fn, args):
    if fn.get("body") and fn.get("crate") == "algeo":
        return NotImplemented
    dst = fn.get("self")
    src = (fn.get("args") or [None, None])[-1]
    if dst is None:
        return NotImplemented
    td = ex.types.T[dst]
    v = args[0]
    if td["k"] == "adt" and td["path"].endswith("String"):
        return v
    if td["k"] == "adt" and td["path"] in VECLIKE:
        return deref(ex, ctx, v)
    if td["k"] in ("int", "uint", "float") and isinstance(v, Poly):
        ts = ex.types.T[src]
        if ts["k"] in ("int", "uint") and td["k"] in ("int", "uint"):
            return ex.int_cast(ctx, v, ts["name"], td["name"])
        return v
    if src == dst:
        return v
    return NotImplemented


def m_call_fn_trait(ex, ctx, fn, args):
    f, a = args[0], args[1]
    a = ctx.force(a) if isinstance(a, SymV) else a
    return ex.apply(ctx, f, list(a.fields))


def m_drop(ex, ctx, fn, args):
    return UNIT


# ------------------------------------------------------------------------------ formatting
def m_from_str_args(ex, ctx, fn, args):
    s = args[0]
    return OpaqueV("fmt", (("s", s),))


def m_arg(kind):
    def f(ex, ctx, fn, args):
        return OpaqueV("arg", (kind, refof(ex, ctx, args[0]), (fn.get("args") or [None])[-1]))
    return f


def m_arguments(ex, ctx, fn, args):
    t, a = [deref(ex, ctx, x) for x in args]
    return OpaqueV("fmt", (("t", t, a),))


TABLE = {
    "std::fmt::Arguments::<'a>::new": m_arguments, "std::fmt::Arguments::<'a>::from_str": m_from_str_args,
    "core::fmt::rt::Argument::<'_>::new_display": m_arg("display"), "core::fmt::rt::Argument::<'_>::new_debug": m_arg("debug"),
    "std::boxed::Box::<T>::new": m_box_new, "std::boxed::Box::<T>::new_uninit": m_new_uninit,
    "std::boxed::box_assume_init_into_vec_unsafe": m_assume_init_vec,
    "std::vec::from_elem": m_from_elem, "std::mem::swap": m_mem_swap, "std::mem::replace": m_mem_replace,
    "std::mem::take": m_mem_take, "std::mem::drop": m_drop, "core::mem::swap": m_mem_swap,
    "std::rt::begin_panic": m_panic, "std::rt::panic_fmt": m_panic, "core::panicking::panic_fmt": m_panic,
    "core::panicking::panic": m_panic, "std::option::unwrap_failed": m_unwrap_failed,
    "core::option::unwrap_failed": m_unwrap_failed, "std::option::expect_failed": m_unwrap_failed,
    "core::option::expect_failed": m_unwrap_failed, "std::result::unwrap_failed": m_unwrap_failed,
    "core::result::unwrap_failed": m_unwrap_failed, "core::panicking::unreachable_display": m_panic,
    "core::panicking::panic_display": m_panic, "core::panicking::panic_explicit": m_panic,
    "core::panicking::assert_failed": m_panic, "std::rt::panic_display": m_panic,
    "std::intrinsics::cold_path": lambda ex, ctx, fn, args: UNIT,
    "std::iter::once": lambda ex, ctx, fn, args: IterV(Src("val", (LitSeq([args[0]]),))),
    "std::iter::empty": lambda ex, ctx, fn, args: IterV(Src("val", (LitSeq(()),))),
    "std::iter::zip": src_iter("zip"),
    "std::hint::must_use": m_same,
}

OPS = {"std::ops::Add": "add", "std::ops::Sub": "sub", "std::ops::Mul": "mul", "std::ops::Div": "div", "std::ops::Rem": "rem"}
NUM = {"i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"}

TRAITS = {}
for _t, _o in OPS.items():
    TRAITS[(_t, _o)] = binary(_o)
    TRAITS[(_t + "Assign", _o + "_assign")] = assign_op(_o)
for _o in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
    TRAITS[("std::ops::" + _o, _o.lower())] = bitwise(_o)
TRAITS.update({
    ("std::ops::Neg", "neg"): m_neg,
    ("std::cmp::PartialEq", "eq"): m_eq(False), ("std::cmp::PartialEq", "ne"): m_eq(True),
    ("std::clone::Clone", "clone"): m_clone,
    ("std::ops::Deref", "deref"): m_deref, ("std::ops::DerefMut", "deref_mut"): m_deref,
    ("std::ops::Index", "index"): m_index, ("std::ops::IndexMut", "index_mut"): m_index,
    ("std::convert::From", "from"): m_from, ("std::default::Default", "default"): m_default,
    ("std::iter::Extend", "extend"): m_extend,
    ("std::iter::IntoIterator", "into_iter"): m_into_iter,
    ("std::iter::FromIterator", "from_iter"): lambda ex, ctx, fn, args: m_collect(ex, ctx, dict(fn, args=[None, fn["self"]]), args),
    ("std::ops::Fn", "call"): m_call_fn_trait, ("std::ops::FnMut", "call_mut"): m_call_fn_trait,
    ("std::ops::FnOnce", "call_once"): m_call_fn_trait,
    ("std::borrow::Borrow", "borrow"): m_same, ("std::convert::AsRef", "as_ref"): m_same,
    ("std::borrow::ToOwned", "to_owned"): m_clone,
})
for _k in ("cmp", "max", "min"):
    TRAITS[("std::cmp::Ord", _k)] = m_cmp(_k)
for _k in ("partial_cmp", "lt", "le", "gt", "ge"):
    TRAITS[("std::cmp::PartialOrd", _k)] = m_cmp(_k)

_CACHE = {}


def lookup(fn):
    k = (fn["path"], fn.get("rpath"), fn.get("kind"), fn.get("crate"), fn.get("impl_self"))
    if k in _CACHE:
        return _CACHE[k]
    r = _CACHE[k] = _lookup(fn)
    return r


def _lookup(fn):
    path, rpath = fn["path"], fn.get("rpath") or fn["path"]
    name = fn["name"] if "name" in fn else path.rsplit("::", 1)[-1]
    tr = fn.get("trait")
    local = fn.get("crate") == "algeo" and fn.get("body")
    for p in (rpath, path):
        if p in TABLE:
            return TABLE[p]
    if tr in ("std::iter::Iterator", "std::iter::DoubleEndedIterator", "std::iter::ExactSizeIterator"):
        if local:
            return None
        return ITER.get(name)
    if tr == "itertools::Itertools":
        return ITERTOOLS.get(name)
    if tr in ("std::iter::Sum", "std::iter::Product") and not local:
        return {"sum": m_sum, "product": m_product}.get(name)
    if tr is not None and tr.startswith("core::num::traits::") and not local:
        return FIELD.get(name)
    if local:
        return None
    if tr is not None and (tr, name) in TRAITS:
        return TRAITS[(tr, name)]
    for n in NUM:
        if "<impl %s>::" % n in rpath and ("::num::" in rpath):
            return int_method(name, n)
    for n in ("f32", "f64"):
        if "<impl %s>::" % n in rpath:
            return float_method(name, n)
    if path.startswith("std::vec::Vec::<"):
        return VEC.get(name)
    if "slice::<impl [T]>::" in rpath:
        return SLICE.get(name)
    if "collections::" in path and "Set" in path:
        return {"contains": m_set_contains, "len": None}.get(name)
    if path in ("std::cmp::min", "std::cmp::max"):
        return m_cmp(name)
    return None
