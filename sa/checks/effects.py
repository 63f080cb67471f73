"""X01: what a result can depend on besides the values of the arguments: an effect analysis over every call and
every operation of the crate's typed MIR (closures included; public or not)."""
import re
from .common import *

HASHED = re.compile(r"(^|::)(hash_set|hash_map|hash|set|map)::(Iter|IterMut|IntoIter|Drain|Keys|Values|ValuesMut|IntoKeys|IntoValues|"
                    r"Difference|SymmetricDifference|Intersection|Union|ExtractIf)$")
SETS = re.compile(r"(^|::)Hash(Set|Map)$")
SINKS = {"count", "any", "all", "len", "size_hint", "is_empty", "contains", "sum", "product", "max", "min", "is_subset", "eq", "ne",
         "clone", "fmt", "sorted", "sorted_unstable", "drop", "reserve", "with_capacity"}
UNORDERED = re.compile(r"(^|::)(HashSet|HashMap|BTreeSet|BTreeMap|BinaryHeap)$")
SORTS = re.compile(r"^sort(ed)?(_|$)")

RULES = [
    (r"^std::(env|time|fs|net|thread)::", "reads the environment, the clock, files, the network or the thread"),
    (r"^std::process::(id|Command)", "reads the process"),
    (r"^std::io::(stdin|Stdin|Read|BufRead|read_to_string)", "reads input"),
    (r"(^|::)LocalKey(::<.*>)?::", "thread-local state"),
    (r"^(rand|getrandom|fastrand|oorandom)\w*::", "random numbers"),
    (r"hash_one$|build_hasher$", "a randomly keyed hash"),
    (r"Argument(::<.*>)?::new_pointer$", "prints an address"),
    (r"(expose_provenance|(\*const T|\*mut T|NonNull<T>)>?::addr|ptr::hash)$", "observes an address"),
    (r"(MaybeUninit::<.*>::assume_init\w*|Vec::<.*>::set_len|mem::uninitialized)$", "reads uninitialised memory"),
    (r"(Rc|Arc)::<.*>::(strong_count|weak_count)$", "observes sharing"),
]
RULES = [(re.compile(r), w) for r, w in RULES]


class Types2:
    def __init__(self, T):
        self.T = T
        self.memo = {}

    def mentions(self, i, pat, seen=()):
        """a type that is, or is built from, one whose path matches (function types and trait objects aside)"""
        k = (i, pat)
        if k in self.memo:
            return self.memo[k]
        if i in seen or not isinstance(i, int):
            return False
        t = self.T[i]
        r = t.get("k") == "adt" and bool(pat.search(t.get("path", "")))
        if not r and t.get("k") in ("adt", "ref", "rawptr", "slice", "array", "tuple", "closure"):
            for v in t.values():
                for x in v if isinstance(v, list) else [v]:
                    if isinstance(x, dict):
                        x = x.get("ty")
                    if isinstance(x, int) and not isinstance(x, bool) and x < len(self.T) and x != i and self.mentions(x, pat, seen + (i,)):
                        r = True
        self.memo[k] = r
        return r

    def strip(self, i):
        while self.T[i]["k"] == "ref":
            i = self.T[i]["e"]
        return i


def local_body(b):
    for bl in b["blocks"]:
        for st in bl["s"] + [bl["t"]]:
            if str(st.get("sp", "")).startswith("src/"):
                return True
    return False


def operand_type(b, o):
    if "const" in o:
        return o["const"].get("ty")
    pl = o.get("move") or o.get("copy")
    if pl is None:
        return None
    t = b["locals"][pl["l"]]
    for p in pl["p"]:
        if p[0] == "field":
            t = p[2]
        elif p[0] != "deref":
            return None
    return t


def x01(S):
    prog = S.prog
    T = Types2(prog.d["types"])
    n, calls = 0, 0
    bad = []

    def flag(fn, what, sp):
        bad.append((fn, what))
        S.violate(fn, what, "a result could depend on more than the arguments", {"at": sp})

    for st in prog.d.get("statics") or []:
        n += 1
        ty = st.get("ty", "")
        if st.get("mutable"):
            flag(st["path"], "mutable static", st.get("sp"))
        elif not st.get("freeze", True) and not re.search(r"(Lazy|Once)(Lock|Cell)", ty):
            flag(st["path"], "static with interior mutability", st.get("sp"))
    for key, b in sorted(prog.d["bodies"].items()):
        if not local_body(b):
            continue
        n += 1
        fn = label_of(key)
        names = [c[0] for c in calls_of(b)]
        sorts = any(SORTS.match(x.get("name", "")) for x in names)
        before = len(bad)
        for bl in b["blocks"]:
            for st in bl["s"]:
                rv = st.get("rv") or {}
                if rv.get("k") == "cast" and "Expose" in str(rv.get("ck", rv.get("kind", ""))):
                    flag(fn, "an address is turned into a number", st.get("sp"))
                if rv.get("k") == "cast" and "Transmute" in str(rv.get("ck", rv.get("kind", ""))):
                    a, c = operand_type(b, rv["o"]), rv.get("ty")
                    if a is not None and isinstance(c, int) and T.T[a]["k"] in ("rawptr", "ref") and T.T[c]["k"] in ("int", "uint"):
                        flag(fn, "an address is turned into a number", st.get("sp"))
                if rv.get("k") == "bin" and rv.get("op") in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp") and not comparison(key):
                    a = operand_type(b, rv["a"])
                    if a is not None and T.T[a]["k"] == "rawptr":
                        flag(fn, "addresses are compared", st.get("sp"))
        for f, t in calls_of(b):
            calls += 1
            path = f.get("rpath") or f.get("path") or ""
            for r, what in RULES:
                if r.search(path) or r.search(f.get("path") or ""):
                    flag(fn, "%s (%s)" % (what, path), t.get("sp"))
                    break
            name = f.get("name", "")
            if re.search(r"ptr::(addr_)?eq$|(Rc|Arc)::<.*>::ptr_eq$|^<\*(const|mut) T as std::cmp::Partial(Eq|Ord)>::", path) and not comparison(key):
                flag(fn, "addresses are compared (%s)" % path, t.get("sp"))
            if name == "capacity" and re.search(r"(Vec|String|VecDeque|HashMap|HashSet)::<.*>::capacity$|String::capacity$", path) and observed(b, t["dst"]["l"]):
                flag(fn, "the spare capacity decides (%s)" % path, t.get("sp"))
            if re.search(r"Once(Lock|Cell).*::(get_or_init|set|get_or_try_init)$", path):
                for o in t["args"][1:]:
                    a = operand_type(b, o)
                    if a is not None and (T.T[a]["k"] != "closure" or captures(T, a)):
                        flag(fn, "a value kept from the first call (%s)" % path, t.get("sp"))
            dst = b["locals"][t["dst"]["l"]] if t.get("dst") and not t["dst"]["p"] else None
            if dst is not None and T.mentions(dst, HASHED):
                continue
            for o in t["args"]:
                a = operand_type(b, o)
                if a is None:
                    continue
                it = T.mentions(a, HASHED) and T.T[T.strip(a)]["k"] != "closure"
                whole = T.T[a]["k"] == "adt" and SETS.search(T.T[a]["path"]) and name in ("extend", "from_iter", "chain", "zip", "collect", "flat_map")
                if not (it or whole) or name in SINKS or sorts:
                    continue
                into = dst if name in ("collect", "from_iter") else operand_type(b, t["args"][0]) if name == "extend" else None
                if into is not None and T.mentions(T.strip(into), UNORDERED):
                    continue
                flag(fn, "the order of a hash table (%s)" % path, t.get("sp"))
        if len(bad) == before:
            S.proved(fn, "depends only on its arguments")
        S.functions.setdefault(fn, {"paths": len(b["blocks"])})
    if not n:
        S.violate("crate", "no function found", "nothing to analyse", {})
    S.note = "%d calls in %d functions" % (calls, n)


def comparison(key):
    """comparing a value with itself by address is a shortcut of comparing values"""
    return bool(re.search(r"::(eq|ne|cmp|partial_cmp)$", key))


def observed(b, l):
    """a local that is compared, branched on or returned (not only passed on as a size hint)"""
    seen, work = set(), [l]
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        if l == 0:
            return True
        for bl in b["blocks"]:
            t = bl["t"]
            if t.get("k") == "switch" and uses(t.get("o", t.get("d")), l):
                return True
            if t.get("k") == "call" and any(uses(o, l) for o in t["args"]):
                name = (t["f"].get("const") or {}).get("fn", {}).get("name", "") if isinstance(t["f"].get("const"), dict) else ""
                if not re.search(r"capacity|reserve", name) and t.get("dst"):
                    work.append(t["dst"]["l"])
            for st in bl["s"]:
                rv = st.get("rv")
                if rv and uses(rv, l) and st.get("pl"):
                    work.append(st["pl"]["l"])
    return False


def uses(x, l):
    if isinstance(x, dict):
        if set(x) >= {"l", "p"} and isinstance(x["l"], int):
            return x["l"] == l or any(p[0] == "index" and p[1] == l for p in x["p"])
        return any(uses(v, l) for v in x.values())
    return isinstance(x, list) and any(uses(v, l) for v in x)


def captures(T, a):
    return bool(T.T[a].get("upvars"))


def calls_of(b):
    for bl in b["blocks"]:
        t = bl["t"]
        if t.get("k") == "call" and isinstance(t.get("f", {}).get("const"), dict) and "fn" in t["f"]["const"]:
            yield t["f"]["const"]["fn"], t


def label_of(key):
    m = re.match(r"DefId\(\d+:\d+ ~ \w+\[\w+\]::(.*?)\)<", key)
    return m.group(1) if m else key


CHECKS = {"X01": x01}
