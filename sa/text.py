"""Texts: what code writes into a formatter or a String.

The content of a formatter (or String) is a sequence; every write appends one element OpaqueV("text", parts) with parts
("s", literal) | ("d", type, value) printed by Display | ("dbg", type, value) printed by Debug | ("sup", n) the
superscript of n (a contract) | ("with", options, part) a placeholder with options."""
from .terms import *
from .values import *
from .interp import Undecided
from . import models as M

OK = ("std::result::Result", 0)


def text(parts):
    return OpaqueV("text", tuple(parts))


def string(s):
    return LitSeq([text([("s", s)])]) if s else LitSeq(())


def base_ty(ex, ty):
    while isinstance(ty, int) and ex.types.T[ty]["k"] == "ref":
        ty = ex.types.T[ty]["e"]
    return ty


def type_name(ex, ty):
    t = ex.types.T[base_ty(ex, ty)]
    return (t.get("path") or t.get("name") or t["k"]).split("::")[-1]


def as_str(v):
    if isinstance(v, StrV):
        s = v.s
        if isinstance(s, bytes):
            return s.decode("utf-8")
        if isinstance(s, (list, tuple)):
            return bytes(s).decode("utf-8")
        if isinstance(s, str) and len(s) >= 2 and s[0] == s[-1] == '"':
            if "\\" in s:
                raise Undecided("escaped literal")
            return s[1:-1]
        if isinstance(s, str):
            return s
    return None


def shown(ex, ctx, kind, v, ty):
    """what an argument contributes: a sequence of texts"""
    v = M.deref(ex, ctx, v)
    s = as_str(v)
    if kind == "display" and s is not None:
        return string(s)
    n = type_name(ex, ty)
    if kind == "display" and n == "String":
        if isinstance(v, Seq):
            return v
        raise Undecided("text of a String")
    if kind == "display" and n == "char" and isinstance(v, Poly) and v.const() is not None:
        return string(chr(int(v.const())))
    if isinstance(v, Seq) and kind == "debug":
        return LitSeq([text([("dbg", "Vec" if n in ("Vec", "slice", "array") else n, v)])])
    if kind == "display" and n == "Arguments":
        return content(ex, ctx, v)
    return LitSeq([text([("d" if kind == "display" else "dbg", n, v)])])


def content(ex, ctx, a):
    """the text of format arguments"""
    if not (isinstance(a, OpaqueV) and a.tag == "fmt"):
        raise Undecided("format arguments")
    k = a.args[0]
    if k[0] == "s":
        s = as_str(M.deref(ex, ctx, k[1]))
        if s is None:
            raise Undecided("text of a literal")
        return string(s)
    t, args = k[1], k[2]
    t = t.s if isinstance(t, StrV) else t
    if isinstance(t, LitSeq):
        t = [int(x.const()) for x in t.items]
    t = list(t) if isinstance(t, (bytes, list, tuple)) else None
    if t is None or not isinstance(args, LitSeq):
        raise Undecided("format template")
    u16 = lambda i: t[i] | t[i + 1] << 8
    out, i, nxt = [], 0, 0
    while True:
        b = t[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(string(bytes(t[i:i + b]).decode("utf-8")))
            i += b
        elif b == 0x80:
            n = u16(i)
            out.append(string(bytes(t[i + 2:i + 2 + n]).decode("utf-8")))
            i += 2 + n
        else:
            opts = []
            if b & 1:
                opts.append(("flags", tuple(t[i:i + 4])))
                i += 4
            if b & 2:
                opts.append(("width", u16(i)))
                i += 2
            if b & 4:
                opts.append(("precision", u16(i)))
                i += 2
            if b & 8:
                nxt = u16(i)
                i += 2
            if b & 0x30:
                raise Undecided("width or precision given by an argument")
            x = args.items[nxt]
            nxt += 1
            x = M.deref(ex, ctx, x)
            if not (isinstance(x, OpaqueV) and x.tag == "arg"):
                raise Undecided("format argument")
            s = shown(ex, ctx, *x.args)
            if opts and opts != [("flags", (32, 0, 0, 224))]:
                s = LitSeq([text([("with", tuple(opts), p) for y in s.items for p in y.args])]) if isinstance(s, LitSeq) else None
                if s is None:
                    raise Undecided("format options on a text")
            out.append(s)
    return joined(out)


def joined(segs):
    """neighbouring texts in one element, so that one write is one element"""
    parts, out = [], []
    for s in segs:
        if isinstance(s, LitSeq):
            for x in s.items:
                parts += x.args
        else:
            if parts:
                out.append(LitSeq([text(parts)]))
                parts = []
            out.append(s)
    if parts:
        out.append(LitSeq([text(parts)]))
    return cat(out) if out else LitSeq(())


def append(ex, ctx, target, s):
    r, old = M.cell(ex, ctx, target)
    if isinstance(old, AdtV) and any(isinstance(x, RefV) for x in old.fields):
        raise Undecided("formatter")
    if not isinstance(old, Seq):
        raise Undecided("formatter")
    ctx.store_at(r, cat([old, s]))


def ok():
    return AdtV(OK[0], OK[1], (M.UNIT,))


def m_write_fmt(ex, ctx, fn, args):
    append(ex, ctx, args[0], content(ex, ctx, M.deref(ex, ctx, args[1])))
    return ok()


def str_content(ex, ctx, v):
    v = M.deref(ex, ctx, v)
    s = as_str(v)
    if s is not None:
        return string(s)
    if isinstance(v, Seq):
        return v
    raise Undecided("text")


def m_write_str(ex, ctx, fn, args):
    append(ex, ctx, args[0], str_content(ex, ctx, args[1]))
    return ok()


def m_push_str(ex, ctx, fn, args):
    append(ex, ctx, args[0], str_content(ex, ctx, args[1]))
    return M.UNIT


def char(ex, ctx, v):
    v = M.deref(ex, ctx, v)
    if isinstance(v, Poly) and v.const() is not None:
        return string(chr(int(v.const())))
    raise Undecided("character")


def m_write_char(ex, ctx, fn, args):
    append(ex, ctx, args[0], char(ex, ctx, args[1]))
    return ok()


def m_push_char(ex, ctx, fn, args):
    append(ex, ctx, args[0], char(ex, ctx, args[1]))
    return M.UNIT


def m_format(ex, ctx, fn, args):
    return content(ex, ctx, M.deref(ex, ctx, args[0]))


def m_to_string(ex, ctx, fn, args):
    ty = fn.get("self")
    ty = ty if ty is not None else (fn.get("args") or [None])[0]
    if ty is None:
        return NotImplemented
    return shown(ex, ctx, "display", args[0], ty)


def m_string_add(ex, ctx, fn, args):
    a = M.deref(ex, ctx, args[0])
    if not isinstance(a, Seq) or not all(isinstance(x, OpaqueV) for x in getattr(a, "items", ())):
        return NotImplemented
    return joined([a, str_content(ex, ctx, args[1])])


def m_display(kind):
    def f(ex, ctx, fn, args):
        """printing a part directly into the same formatter"""
        if fn.get("body") and fn.get("crate") == "algeo":
            return NotImplemented
        ty = fn.get("self")
        ty = ty if ty is not None else (fn.get("args") or [None])[0]
        if ty is None:
            return NotImplemented
        append(ex, ctx, args[1], shown(ex, ctx, kind, args[0], ty))
        return ok()
    return f


def install():
    T = M.TABLE
    for p in ("std::fmt::Formatter::<'a>::write_fmt", "core::fmt::Formatter::<'a>::write_fmt", "std::fmt::Write::write_fmt"):
        T[p] = m_write_fmt
    for p in ("std::fmt::Formatter::<'a>::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str",
              "<std::string::String as std::fmt::Write>::write_str", "std::fmt::Formatter::<'a>::pad"):
        T[p] = m_write_str
    for p in ("<std::fmt::Formatter<'_> as std::fmt::Write>::write_char", "<std::string::String as std::fmt::Write>::write_char"):
        T[p] = m_write_char
    T["std::string::String::push_str"] = m_push_str
    T["std::string::String::push"] = m_push_char
    T["std::string::String::new"] = lambda ex, ctx, fn, args: LitSeq(())
    T["std::string::String::with_capacity"] = lambda ex, ctx, fn, args: LitSeq(())
    for p in ("std::fmt::format", "alloc::fmt::format", "std::fmt::format::format_inner"):
        T[p] = m_format
    T["<std::string::String as std::ops::Add<&str>>::add"] = m_string_add
    M.TRAITS[("std::string::ToString", "to_string")] = m_to_string
    M.TRAITS[("std::fmt::Display", "fmt")] = m_display("display")
    M.TRAITS[("std::fmt::Debug", "fmt")] = m_display("debug")
    M.TRAITS[("std::fmt::Write", "write_str")] = m_write_str
    M.TRAITS[("std::fmt::Write", "write_char")] = m_write_char
    M.TRAITS[("std::fmt::Write", "write_fmt")] = m_write_fmt
    old = M.m_from

    def m_from(ex, ctx, fn, args):
        dst = fn.get("self")
        if dst is not None and ex.types.T[dst]["k"] == "adt" and ex.types.T[dst]["path"].endswith("string::String") and not (fn.get("body") and fn.get("crate") == "algeo"):
            v = M.deref(ex, ctx, args[0])
            if as_str(v) is not None:
                return string(as_str(v))
            if isinstance(v, Seq):
                return v
            if isinstance(v, Poly):
                return char(ex, ctx, v)
        return old(ex, ctx, fn, args)
    M.TRAITS[("std::convert::From", "from")] = m_from
    M.TABLE["core::str::traits::<impl std::convert::AsRef<str> for str>::as_ref"] = M.m_same


install()
