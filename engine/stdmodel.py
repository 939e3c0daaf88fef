"""Reference model of the standard library functions used inside generated programs."""
import functools, math, unicodedata
from .lang import *
from . import lang


def table(m):
    t = {}

    def reg(name, arity):
        def deco(f):
            def wrapper(args, obj):
                if len(args) != arity: raise Panic("arity")
                return f(*args)
            t[name] = wrapper
            return f
        return deco

    def need(v, *types):
        if tname(v) not in types: raise Panic("type")

    @reg("type", 1)
    def _(v): return tname(v).encode()

    @reg("len", 1)
    def _(v):
        need(v, "array", "dict", "string")
        return len(v.a) if isinstance(v, Arr) else len(v.d) if isinstance(v, Dct) else len(v)

    @reg("is_empty", 1)
    def _(v):
        need(v, "array", "dict", "string")
        return (len(v.a) if isinstance(v, Arr) else len(v.d) if isinstance(v, Dct) else len(v)) == 0

    @reg("push", 2)
    def _(a, v): need(a, "array"); a.a.append(v)

    @reg("pop", 1)
    def _(a):
        need(a, "array")
        if not a.a: raise Panic("empty")
        return a.a.pop()

    @reg("contains", 2)
    def _(c, v):
        tc = tname(c)
        if tc == "array": return any(equal(x, v) for x in c.a)
        if tc == "dict":
            k = canon(v)
            return k is not None and k in c.d
        if tc == "string":
            need(v, "char"); return v.v in c
        raise Panic("type")

    @reg("error", 2)
    def _(d, c): need(d, "string"); return Err(d, c)

    @reg("has_error", 1)
    def has_error(v):
        if isinstance(v, Err): return True
        if isinstance(v, Arr): return any(has_error(x) for x in v.a)
        if isinstance(v, Dct): return any(has_error(k) or has_error(x) for k, x in v.d.values())
        return False

    @reg("assert", 1)
    def _(b):
        need(b, "bool")
        if not b: raise Panic("assert")

    @reg("panic", 1)
    def _(v): raise Panic("user", v)

    @reg("typecheck", 2)
    def _(v, ty):
        need(ty, "string")
        if ty.decode("latin1") not in TYPE_ORDER: raise Panic("value")
        if tname(v) != ty.decode(): raise Panic("type")
        return v

    @reg("try_typecheck", 2)
    def _(v, ty):
        need(ty, "string")
        if ty.decode("latin1") not in TYPE_ORDER: raise Panic("value")
        if tname(v) != ty.decode():
            return Err(b"type error: expected %s, got %s (" % (ty, tname(v).encode()) + show(v).encode("utf-8") + b")", v)
        return None

    @reg("to_string", 1)
    def _(v):
        if isinstance(v, bytes): return v
        return show(v).encode("utf-8")

    @reg("int", 1)
    def _(v):
        if tname(v) == "int": return v
        if tname(v) == "float":
            if v != v: return 0
            if v >= 9.3e18: return I64_MAX
            if v <= -9.3e18: return I64_MIN
            return max(I64_MIN, min(I64_MAX, int(v)))
        need(v, "string")
        import re
        if re.fullmatch(rb"[+-]?[0-9]+", v):
            i = int(v)
            if I64_MIN <= i <= I64_MAX: return i
        raise Panic("value")

    @reg("float", 1)
    def _(v):
        if tname(v) == "float": return v
        if tname(v) == "int": return float(v)
        need(v, "string")
        import re
        if re.fullmatch(rb"[+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?", v): return float(v)
        if re.fullmatch(rb"(?i)[+-]?(?:inf|infinity|nan)", v):
            return float(v.decode().lower().replace("+", ""))
        raise Panic("value")

    @reg("bytes", 1)
    def _(v): need(v, "string"); return Arr([Byte(b) for b in v])

    @reg("sort", 1)
    def _(a):
        need(a, "array")
        a.a.sort(key=functools.cmp_to_key(cmp_val))

    @reg("substr", 3)
    def _(s, start, n):
        if tname(start) == "int" and tname(n) == "int": need(s, "string")
        else: raise Panic("type")   # or arity, for several wrong arguments
        if start < 0 or n < 0 or start + n > len(s): return None
        return s[start:start + n]

    def entry(v, fin=False):
        d = Dct(); d.set(b"finished", fin)
        if not fin: d.set(b"value", v)
        return d

    def it_of(gen):
        st = {"it": gen, "done": False}
        def f(args, obj):
            if args: raise Panic("arity")
            try: return entry(next(st["it"]))
            except StopIteration: return entry(None, True)
        return f

    @reg("iter", 1)
    def _(v):
        tv = tname(v)
        if tv == "array":
            st = [0]
            def f(args, obj):
                if args: raise Panic("arity")
                if st[0] < len(v.a):
                    st[0] += 1; return entry(v.a[st[0] - 1])
                return entry(None, True)
            return Native("std.iter<impl>", f)
        if tv == "string": return Native("std.iter<impl>", it_of(iter([Byte(b) for b in v])))
        if tv == "dict":
            def g():
                for k, x in list(v.d.values()):
                    d = Dct(); d.set(b"key", k); d.set(b"value", x); yield d
            return Native("std.iter<impl>", it_of(g()))
        raise Panic("type")

    @reg("range", 3)
    def _(a, b, s):
        for x in (a, b, s): need(x, "int", "float")
        if any(isinstance(x, float) for x in (a, b, s)): a, b, s = float(a), float(b), float(s)
        st = [a]
        def f(args, obj):
            if args: raise Panic("arity")
            c = st[0]
            fin = c >= b if s > 0 else c <= b
            if fin: return entry(None, True)
            n = c + s
            if not isinstance(n, float): n = max(I64_MIN, min(I64_MAX, n))
            st[0] = n
            return entry(c)
        return Native("std.range<impl>", f)

    def catch(args, obj):
        if len(args) != 1: raise Panic("arity")
        f, = args
        need(f, "function")
        at = m.at
        try: return m.call(f, [], None)
        except Panic as p:
            return Err("!" + p.kind + ("@%d:%d" % (where(p.node or at) or (0, 0)) if m.positions else ""), b"panic")
    t["catch"] = catch

    @reg("bind", 2)
    def _(o, f):
        need(f, "function")
        return Native("std.bind<impl>", lambda args, obj: m.call(f, args, o))

    def println(args, obj):
        m.emit(b"\t".join(raw(a) for a in args) + b"\n")
    t["println"] = println
    def print_(args, obj):
        m.emit(b"\t".join(raw(a) for a in args))
    t["print"] = print_

    @reg("hex.encode", 1)
    def _(v): need(v, "string"); return v.hex().encode()

    @reg("replace", 3)
    def _(s, p, r):
        for x in (s, p, r): need(x, "string")
        return s.replace(p, r)

    @reg("split", 2)
    def _(s, p):
        for x in (s, p): need(x, "string")
        if p == b"":
            return Arr([b""] + [bytes([c]) for c in s] + [b""])
        return Arr(s.split(p))
    return t


# ------------------------------------------------------------------ text form
_WS = {9: "\\t", 10: "\\n", 13: "\\r", 0: "\\0", 34: '\\"', 39: "\\'", 92: "\\\\"}


def esc_debug_ascii(s):
    """Rust's str::escape_debug for strings of printable ASCII and control characters."""
    out = []
    for ch in s:
        o = ord(ch)
        if o in _WS: out.append(_WS[o])
        elif o < 32 or o == 127: out.append("\\u{%x}" % o)
        elif o > 127 and (not ch.isprintable() or unicodedata.combining(ch) or unicodedata.category(ch)[0] == "M"): raise Budget("text form not modelled")
        else: out.append(ch)
    return "".join(out)


def show(v):
    t = tname(v)
    if t == "nil": return "nil"
    if t == "bool": return "true" if v else "false"
    if t == "int": return str(v)
    if t == "float": return rust_float(v)
    if t == "char": return chr(v.v)
    if t == "string": return '"' + esc_debug_ascii(v.decode("utf-8", "replace")) + '"'
    if t == "array": return "[" + ",".join(" " + show(x) for x in v.a) + " ]"
    if t == "dict" and len(v.d) > 1: raise Budget("dict entries come in any order")
    if t == "dict": return "@[" + ",".join(" " + show(k) + ": " + show(x) for k, x in v.d.values()) + " ]"
    if t == "error": return "error: %s (%s)" % (show(v.desc if isinstance(v.desc, bytes) else v.desc.encode()), show(v.ctx))
    if isinstance(v, Native): return v.name
    raise Budget("the text of a function is not modelled")


def raw(v):
    if isinstance(v, bytes): return v
    if isinstance(v, Byte): return bytes([v.v])
    return show(v).encode("utf-8")
