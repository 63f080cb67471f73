"""Running the abstract interpreter on a function of the program with unknown arguments."""
import sys
from .terms import *
from .facts import *
from .values import *
from .interp import Prog, Exec, explore, Ctx, Dead, PanicEx, Budget
from . import models, loops

sys.setrecursionlimit(20000)


def inputs(ex, body, names=None):
    """unknown arguments of the parameter types; references point to cells of their own"""
    args, store = [], {}
    for i in range(body.nargs):
        ty = body.locals[i + 1]
        nm = (names[i] if names else None) or "a%d" % i
        args.append(unknown(ex, store, nm, ty))
    return args, store


def unknown(ex, store, nm, ty):
    t = ex.types.T[ty]
    if t["k"] == "ref":
        root = ("A", nm)
        store[root] = unknown(ex, store, nm, t["e"])
        ex.roottype[root] = t["e"]
        return RefV(root)
    return SymV(("in", nm), ty)


def run(ex, key, args=None, store=None, facts=None, opts=None, budget=None, ns=("#", 0), then=None):
    body = ex.prog.body(key)
    if body is None:
        raise Undecided("no body for %s" % key)
    if args is None:
        args, st = inputs(ex, body)
        store = {**(store or {}), **st}
    ex.nloops = 0

    def go(c):
        v = ex.run_body(c, body, args)
        return then(ex, c, v) if then else v
    return explore(ex.prog, go, dict(store or {}), facts or Facts(), opts or {}, ns, budget)


def load(ctx_or_store, ref):
    raise NotImplementedError
