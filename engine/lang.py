"""Reference model of the Hush language: values, AST, static resolution, evaluator.

Written from the language's documentation and specification of behaviour; it shares no code with
/repo. The evaluator is deliberately naive: frames are dicts of cells, blocks are Python lists.
"""
import math, struct

I64_MIN, I64_MAX = -(1 << 63), (1 << 63) - 1


class Byte:
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
    def __eq__(self, o): return isinstance(o, Byte) and o.v == self.v
    def __hash__(self): return hash(("byte", self.v))
    def __repr__(self): return "Byte(%d)" % self.v


class Arr:
    __slots__ = ("a",)
    def __init__(self, a=None): self.a = a if a is not None else []


class Dct:
    """Dict keyed by canonical key text -> (key, value)."""
    __slots__ = ("d",)
    def __init__(self): self.d = {}
    def get(self, k):
        e = self.d.get(canon(k))
        return e
    def set(self, k, v):
        c = canon(k)
        if c is None:      # NaN inside: never equal to anything
            c = ("nan", id(k), len(self.d), object())
        old = self.d.get(c)
        self.d[c] = (old[0] if old else k, v)


class Err:
    __slots__ = ("desc", "ctx")
    def __init__(self, desc, ctx): self.desc, self.ctx = desc, ctx


class Fn:  # hush function value
    __slots__ = ("node", "frame")
    def __init__(self, node, frame): self.node, self.frame = node, frame


class Native:
    __slots__ = ("name", "f")
    def __init__(self, name, f): self.name, self.f = name, f


class Panic(Exception):
    """kind: class of the panic, used for comparison with the message."""
    def __init__(self, kind, info=None, node=None):
        Exception.__init__(self, kind)
        self.kind, self.info, self.node = kind, info, node


class _Return(Exception):
    def __init__(self, v): self.v = v


class _Break(Exception):
    pass


class Budget(Exception):
    """The generated program exceeds the model's step budget: discard the case."""


def tname(v):
    if v is None: return "nil"
    if v is True or v is False: return "bool"
    if isinstance(v, int): return "int"
    if isinstance(v, float): return "float"
    if isinstance(v, Byte): return "char"
    if isinstance(v, bytes): return "string"
    if isinstance(v, Arr): return "array"
    if isinstance(v, Dct): return "dict"
    if isinstance(v, Err): return "error"
    return "function"


TYPE_ORDER = ["nil", "bool", "char", "int", "float", "string", "array", "dict", "function", "error"]


def canon(v):
    """Hashable canonical form such that canon(a) == canon(b) iff a == b (None if NaN inside)."""
    t = tname(v)
    if t in ("nil",): return ("nil",)
    if t == "bool": return ("bool", v)
    if t == "int": return ("int", v)
    if t == "float":
        if v != v: return None
        return ("float", struct.pack("<d", 0.0 if v == 0 else v))
    if t == "char": return ("char", v.v)
    if t == "string": return ("string", v)
    if t == "array":
        out = []
        for x in v.a:
            c = canon(x)
            if c is None: return None
            out.append(c)
        return ("array", tuple(out))
    if t == "dict":
        out = []
        for k, x in v.d.values():
            ck, cx = canon(k), canon(x)
            if ck is None or cx is None: return None
            out.append((ck, cx))
        return ("dict", frozenset(out))
    if t == "error":
        c = canon(v.ctx)
        return None if c is None else ("error", v.desc, c)
    if isinstance(v, Native): return ("native", v.name)
    return ("fn", id(v))


def equal(a, b):
    ca, cb = canon(a), canon(b)
    if ca is None or cb is None: return False
    return ca == cb


def cmp_val(a, b):
    """Total order of the language for (NaN-free, function-free) values."""
    ta, tb = TYPE_ORDER.index(tname(a)), TYPE_ORDER.index(tname(b))
    if ta != tb: return -1 if ta < tb else 1
    t = TYPE_ORDER[ta]
    if t == "nil": return 0
    if t == "char": a, b = a.v, b.v
    if t in ("bool", "char", "int", "string"):
        return (a > b) - (a < b)
    if t == "float":
        if a != a: return -1
        if b != b: return 1
        return (a > b) - (a < b)
    if t == "array":
        for x, y in zip(a.a, b.a):
            c = cmp_val(x, y)
            if c: return c
        return (len(a.a) > len(b.a)) - (len(a.a) < len(b.a))
    if t == "dict":
        import functools
        key = functools.cmp_to_key(lambda p, q: cmp_val(p[0], q[0]))
        x = sorted(a.d.values(), key=key); y = sorted(b.d.values(), key=key)
        for (k1, v1), (k2, v2) in zip(x, y):
            c = cmp_val(k1, k2) or cmp_val(v1, v2)
            if c: return c
        return (len(x) > len(y)) - (len(x) < len(y))
    if t == "error":
        c = (a.desc > b.desc) - (a.desc < b.desc)
        return c or cmp_val(a.ctx, b.ctx)
    raise AssertionError(t)


# ---------------------------------------------------------------- float text
def rust_float(f):
    """Rust's {:?} of an f64."""
    if f != f: return "NaN"
    if f == math.inf: return "inf"
    if f == -math.inf: return "-inf"
    sign = "-" if math.copysign(1, f) < 0 else ""
    f = abs(f)
    if f == 0: return sign + "0.0"
    r = repr(f)
    if "e" in r:
        m, e = r.split("e"); e = int(e)
    else:
        m, e = r, 0
    if "." in m: ip, fp = m.split(".")
    else: ip, fp = m, ""
    digits = ip + fp
    exp = e + len(ip)          # value = 0.digits * 10^exp
    stripped = digits.lstrip("0"); exp -= len(digits) - len(stripped)
    digits = stripped.rstrip("0") or "0"
    if 1e-4 <= f < 1e16:
        if exp <= 0: return sign + "0." + "0" * (-exp) + digits
        if len(digits) <= exp: return sign + digits + "0" * (exp - len(digits)) + ".0"
        return sign + digits[:exp] + "." + digits[exp:]
    x = exp - 1
    body = digits[0] + ("." + digits[1:] if len(digits) > 1 else "")
    return "%s%se%d" % (sign, body, x)


def fbits(f):
    return "nan" if f != f else struct.pack(">d", f).hex()


# ---------------------------------------------------------------- serialisation (same as prelude S)
def ser(v, depth=0):
    t = tname(v)
    if t == "nil": return "n"
    if t == "bool": return "t" if v else "f"
    if t == "int": return "i%d" % v
    if t == "float": return "~" + fbits(v)
    if t == "char": return "c" + (chr(v.v).encode("utf-8").hex())
    if t == "string": return "s" + v.hex()
    if t == "array":
        s = "[" + "".join(ser(x, depth + 1) + "," for x in v.a) + "]"
        if len(s) > 1 << 22: raise Budget()
        return s
    if t == "dict":
        return "{" + "".join(sorted(ser(k, depth + 1) + ":" + ser(x, depth + 1) + ","
                                    for k, x in v.d.values())) + "}"
    if t == "error":
        d = v.desc
        return "E(%s|%s)" % (d if isinstance(d, str) else d.hex(), ser(v.ctx, depth + 1))
    return "F"


# Prelude in Hush implementing the same serialisation. `S` returns a string, `T` prints a record.
PRELUDE = b"""
let S_sort = std.sort
let S = function (v)
  let t = std.type(v)
  if t == "nil" then "n"
  elseif t == "bool" then if v then "t" else "f" end
  elseif t == "int" then "i" ++ std.to_string(v)
  elseif t == "float" then "~" ++ std.to_string(v)
  elseif t == "char" then "c" ++ std.hex.encode(std.to_string(v))
  elseif t == "string" then "s" ++ std.hex.encode(v)
  elseif t == "array" then
    let r = "["
    for x in std.iter(v) do r = r ++ S(x) ++ "," end
    r ++ "]"
  elseif t == "dict" then
    let a = []
    for e in std.iter(v) do std.push(a, S(e.key) ++ ":" ++ S(e.value) ++ ",") end
    S_sort(a)
    let r = "{"
    for x in std.iter(a) do r = r ++ x end
    r ++ "}"
  elseif t == "error" then "E(" ++ std.hex.encode(v.description) ++ "|" ++ S(v.context) ++ ")"
  else "F" end
end
let T = function (tag, v) std.println(tag ++ " " ++ S(v)) end
""".replace(b"\n", b" ").replace(b"  ", b" ")

import re
PANIC_KINDS = [
    ("stack overflow", "stack"), ("integer overflow", "overflow"), ("division by zero", "div"),
    ("out of bounds", "index"), ("collection is empty", "empty"),
    ("which is not a function", "notfun"), ("incorrect amount of function parameters", "arity"),
    ("is not a boolean", "cond"), ("has unexpected type", "type"), ("invalid value", "value"),
    ("expansion resulted in", "expansion"), ("unsupported file descriptor", "fd"),
    ("has invalid UTF-8", "utf8"), ("which is readonly", "readonly"),
    ("assertion failed", "assert"), ("failed to import module", "import"),
    ("attempt to call join more than once", "join"), ("std.panic", "user"),
]
_PANIC_RE = re.compile(r"^(?:caught panic: )?Panic in (.*?) \(line (\d+), column (\d+)\): (.*)$", re.S)


def parse_panic(text):
    """-> (file, line, col, kind, message) or None."""
    m = _PANIC_RE.match(text)
    if not m: return None
    msg = m.group(4)
    # A user panic carries arbitrary text, so it goes first.
    if msg.startswith("std.panic"): kind = "user"
    else:
        kind = next((k for p, k in PANIC_KINDS if p in msg), "other:" + msg[:60])
    return (m.group(1), int(m.group(2)), int(m.group(3)), kind, msg)


_E_RE = re.compile(rb"E\(([0-9a-f]*)\|s70616e6963\)")   # context is the string "panic"


_F_RE = re.compile(rb"~([-0-9.einfNa]+)")


def norm_output(out, positions=False):
    """Replace the description of caught panics by its kind, and the text of floats by their bits."""
    def sub(m):
        try: d = bytes.fromhex(m.group(1).decode()).decode("utf-8", "replace")
        except ValueError: return m.group(0)
        p = parse_panic(d)
        if p is None: return m.group(0)
        return b"E(!" + p[3].encode("utf-8", "replace") + (b"@%d:%d" % (p[1], p[2]) if positions else b"") + b"|s70616e6963)"
    def fl(m):
        try: return b"~" + fbits(float(m.group(1))).encode()
        except ValueError: return b"~?" + m.group(1)
    out = _F_RE.sub(fl, _E_RE.sub(sub, out))
    if b"~" in out and b"{" in out: out = b"\n".join(_resort(l) for l in out.split(b"\n"))
    return out


def _resort(line):
    """Dict entries are sorted by their text, and the text of float keys has changed."""
    if b"~" not in line or b"{" not in line: return line
    from . import vals
    tag, _, v = line.partition(b" ")
    try: return tag + b" " + vals.ident(vals.parse(v)).encode()
    except (ValueError, IndexError): return line


# ---------------------------------------------------------------- AST
class N:
    """AST node; kind + fields."""
    __slots__ = ("k", "f", "decl", "up", "pos", "fpos", "id")
    _n = 0
    def __init__(self, k, *f):
        self.k, self.f = k, f
        self.decl = self.up = self.pos = self.fpos = None
        N._n += 1; self.id = N._n
    def __repr__(self): return "N(%s,%s)" % (self.k, ",".join(map(repr, self.f)))


class Key:
    """Stands for the identifier of a field access; receives its position."""
    __slots__ = ("n",)
    def __init__(self, n): self.n = n
    @property
    def pos(self): return self.n.fpos
    @pos.setter
    def pos(self, p): self.n.fpos = p


def where(e):
    """The position an expression is reported at."""
    while isinstance(e, N) and e.k == "paren": e = e.f[0]
    return None if e is None else e.pos


def fieldpos(l): return Key(l) if l.k == "dot" else l.f[1]


def lit(v): return N("lit", v)
def var(n): return N("var", n)
def call(f, *a): return N("call", f, list(a))
def dot(o, n): return N("dot", o, n)
def idx(o, i): return N("idx", o, i)
def std(name):
    e = var("std")
    for p in name.split("."): e = dot(e, p)
    return e
def scall(name, *a): return call(std(name), *a)
def fn(params, body): return N("fn", list(params), body)
def bin_(op, a, b): return N("bin", op, a, b)
def un(op, a): return N("un", op, a)
def if_(c, t, o=None): return N("if", c, t, o if o is not None else [])
def let(n, e): return N("let", n, e)
def fundef(n, params, body): return N("fundef", n, fn(params, body))
def assign(l, r): return N("assign", l, r)
def ret(e=None): return N("ret", e)
def brk(): return N("break")
def while_(c, b): return N("while", c, b)
def for_(n, e, b): return N("for", n, e, b)
def es(e): return N("expr", e)
def trace(tag, e): return es(call(var("T"), lit(tag.encode() if isinstance(tag, str) else tag), e))


# ---------------------------------------------------------------- static resolution
class StaticError(Exception):
    def __init__(self, kind, node): Exception.__init__(self, kind); self.kind, self.node = kind, node


class _Fr:
    __slots__ = ("scopes", "uses_self")
    def __init__(self): self.scopes = [{}]; self.uses_self = False


class Resolver:
    """Resolves variables to (frames up, declaration id); collects static errors."""
    def __init__(self, globals_=("std",)):
        self.frames = [_Fr()]
        self.errors = []
        self.loop = [False]
        for g in globals_: self.frames[0].scopes[0][g] = ("g", g)

    def declare(self, name, node, key):
        sc = self.frames[-1].scopes[-1]
        if name in sc: self.errors.append(("duplicate", name, node)); return None
        sc[name] = key
        return key

    def lookup(self, name, node):
        for up, fr in enumerate(reversed(self.frames)):
            for sc in reversed(fr.scopes):
                if name in sc: return up, sc[name]
        self.errors.append(("undeclared", name, node))
        return None, None

    def block(self, b):
        for s in b: self.stmt(s)

    def scoped(self, b):
        self.frames[-1].scopes.append({}); self.block(b); self.frames[-1].scopes.pop()

    def stmt(self, s):
        k = s.k
        if k == "let" or k == "fundef":
            s.decl = self.declare(s.f[0], s, ("d", s.id)); self.expr(s.f[1])
        elif k == "assign":
            l = s.f[0]
            if l.k in ("var", "dot", "idx"): self.expr(l)
            else: self.errors.append(("assign", None, s))
            self.expr(s.f[1])
        elif k == "ret":
            if len(self.frames) == 1: self.errors.append(("return", None, s))
            if s.f[0] is not None: self.expr(s.f[0])
        elif k == "break":
            if not self.loop[-1]: self.errors.append(("break", None, s))
        elif k == "while":
            self.expr(s.f[0]); self.loop.append(True); self.scoped(s.f[1]); self.loop.pop()
        elif k == "for":
            self.expr(s.f[1])
            self.loop.append(True); self.frames[-1].scopes.append({})
            s.decl = self.declare(s.f[0], s, ("d", s.id))
            self.block(s.f[2])
            self.frames[-1].scopes.pop(); self.loop.pop()
        elif k == "expr": self.expr(s.f[0])
        else: raise AssertionError(k)

    def expr(self, e):
        k = e.k
        if k == "lit": pass
        elif k == "var": e.up, e.decl = self.lookup(e.f[0], e)
        elif k == "self":
            if len(self.frames) == 1: self.errors.append(("self", None, e))
        elif k == "arr":
            for x in e.f[0]: self.expr(x)
        elif k == "dict":
            seen = set()
            for n, x in e.f[0]:
                if n in seen: self.errors.append(("dupkey", n, e))
                seen.add(n); self.expr(x)
        elif k == "fn":
            self.frames.append(_Fr()); self.loop.append(False)
            ds = []
            for i, p in enumerate(e.f[0]): ds.append(self.declare(p, e, ("p", e.id, i)))
            e.decl = ds
            self.block(e.f[1])
            self.loop.pop(); self.frames.pop()
        elif k == "un": self.expr(e.f[1])
        elif k == "try":
            self.expr(e.f[0])
            if len(self.frames) == 1: self.errors.append(("try", None, e))
        elif k == "bin": self.expr(e.f[1]); self.expr(e.f[2])
        elif k == "if":
            self.expr(e.f[0]); self.scoped(e.f[1]); self.scoped(e.f[2])
        elif k == "dot": self.expr(e.f[0])
        elif k == "idx": self.expr(e.f[0]); self.expr(e.f[1])
        elif k == "call":
            self.expr(e.f[0])
            for a in e.f[1]: self.expr(a)
        elif k == "paren": self.expr(e.f[0])
        elif k == "raw": pass
        else: raise AssertionError(k)


# ---------------------------------------------------------------- evaluator
class Frame:
    __slots__ = ("cells", "parent", "selfv")
    def __init__(self, parent, selfv=None): self.cells, self.parent, self.selfv = {}, parent, selfv


def ck(i):
    if I64_MIN <= i <= I64_MAX: return i
    raise Panic("overflow")


def arith(op, a, b):
    ta, tb = tname(a), tname(b)
    if ta == "int":
        if tb != "int": raise Panic("type")
        if op == "+": return ck(a + b)
        if op == "-": return ck(a - b)
        if op == "*": return ck(a * b)
        if b == 0: raise Panic("div")
        if a == I64_MIN and b == -1: raise Panic("div")   # documented as the same panic
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        return q if op == "/" else a - q * b
    if ta == "float":
        if tb != "float": raise Panic("type")
        if op == "+": return a + b
        if op == "-": return a - b
        if op == "*": return a * b
        if op == "/":
            if b == 0:
                if a == 0 or a != a: return math.nan
                return math.copysign(math.inf, a) * math.copysign(1, b)
            return a / b
        if b == 0 or a != a or b != b or abs(a) == math.inf: return math.nan
        return math.fmod(a, b)
    raise Panic("type")


ORDERED = ("int", "float", "char", "string")


class Machine:
    def __init__(self, budget=200000):
        self.out = []
        self.steps = 0
        self.budget = budget
        self.depth = 0
        self.natives = {}
        self.stdv = None
        self.max_depth = 0
        self.positions = False      # caught panics carry their position (the program was printed before)
        self._mk_std()

    # -- std
    def _mk_std(self):
        d = Dct(); self.stdv = d
        def reg(name, f):
            parts = name.split("."); t = d
            for p in parts[:-1]:
                e = t.get(p.encode())
                if e is None: nd = Dct(); t.set(p.encode(), nd); e = (None, nd)
                t = e[1]
            t.set(parts[-1].encode(), Native("std." + name, f))
        from . import stdmodel
        for name, f in stdmodel.table(self).items(): reg(name, f)

    def tick(self):
        self.steps += 1
        if self.steps > self.budget: raise Budget()

    def emit(self, s):
        self.out.append(s)

    # -- program
    def run(self, block, extra=None):
        """extra: {name: value} globals beyond std (their declaration keys are ('g', name))."""
        fr = Frame(None)
        fr.cells[("g", "std")] = [self.stdv]
        for k, v in (extra or {}).items(): fr.cells[("g", k)] = [v]
        self.root = fr
        try:
            return self.block(block, fr)
        except RecursionError:
            raise Budget()

    def block(self, b, fr):
        v = None
        for s in b: v = self.stmt(s, fr)
        return v

    def cell(self, fr, key):
        c = fr.cells.get(key)
        if c is None: c = fr.cells[key] = [None]
        return c

    def stmt(self, s, fr):
        self.tick()
        k = s.k
        if k == "expr": return self.expr(s.f[0], fr)
        if k == "let" or k == "fundef":
            v = self.expr(s.f[1], fr)
            self.cell(fr, s.decl)[0] = v
            return None
        if k == "assign":
            v = self.expr(s.f[1], fr)
            l = s.f[0]
            if l.k == "var":
                self.var_cell(l, fr)[0] = v
                return None
            o = self.expr(l.f[0], fr)
            i = l.f[1].encode() if l.k == "dot" else self.expr(l.f[1], fr)
            to = tname(o)
            if to == "dict": o.set(i, v)
            elif to == "array":
                if tname(i) != "int": raise Panic("type", node=fieldpos(l))
                if i >= len(o.a): raise Panic("index", node=fieldpos(l))
                if i < 0: raise Panic("index", node=l)
                o.a[i] = v
            elif to == "error": raise Panic("readonly", node=fieldpos(l))
            else: raise Panic("type", node=l.f[0])
            return None
        if k == "ret": raise _Return(None if s.f[0] is None else self.expr(s.f[0], fr))
        if k == "break": raise _Break()
        if k == "while":
            while True:
                self.tick()
                c = self.expr(s.f[0], fr)
                if c is not True and c is not False: raise Panic("cond", node=s.f[0])
                if not c: return None
                try: self.block(s.f[1], fr)
                except _Break: return None
        if k == "for":
            it = self.expr(s.f[1], fr)
            if tname(it) != "function": raise Panic("type", node=s.f[1])
            cell = self.cell(fr, s.decl)
            while True:
                self.tick()
                r = self.call_at(it, [], None, s.f[1])
                if tname(r) != "dict": raise Panic("type", node=s.f[1])
                e = r.get(b"finished")
                if e is None: raise Panic("index", node=s.f[1])
                if e[1] is True: return None
                if e[1] is not False: raise Panic("type", node=s.f[1])
                e = r.get(b"value")
                if e is None: raise Panic("index", node=s.f[1])
                cell[0] = e[1]
                try: self.block(s.f[2], fr)
                except _Break: return None
        raise AssertionError(k)

    def var_cell(self, e, fr):
        for _ in range(e.up): fr = fr.parent
        return self.cell(fr, e.decl)

    def expr(self, e, fr):
        return self.expr2(e, fr)[0]

    def expr2(self, e, fr):
        """-> (value, self object for a call)."""
        self.tick()
        k = e.k
        if k == "lit": return e.f[0], None
        if k == "var": return self.var_cell(e, fr)[0], None
        if k == "self": return fr.selfv, None
        if k == "paren": return self.expr2(e.f[0], fr)
        if k == "arr": return Arr([self.expr(x, fr) for x in e.f[0]]), None
        if k == "dict":
            d = Dct()
            for n, x in e.f[0]: d.set(n.encode(), self.expr(x, fr))
            return d, None
        if k == "fn": return Fn(e, fr), None
        if k == "un":
            v = self.expr(e.f[1], fr); t = tname(v)
            if e.f[0] == "not":
                if t != "bool": raise Panic("type", node=e.f[1])
                return (not v), None
            if t == "int":
                if v == I64_MIN: raise Panic("overflow", node=e.f[1])
                return -v, None
            if t == "float": return -v, None
            raise Panic("type", node=e.f[1])
        if k == "try":
            v = self.expr(e.f[0], fr)
            if isinstance(v, Err): raise _Return(v)
            return v, None
        if k == "bin": return self.binop(e, fr), None
        if k == "if":
            c = self.expr(e.f[0], fr)
            if c is not True and c is not False: raise Panic("cond", node=e.f[0])
            return self.block(e.f[1] if c else e.f[2], fr), None
        if k in ("dot", "idx"):
            o = self.expr(e.f[0], fr)
            i = e.f[1].encode() if k == "dot" else self.expr(e.f[1], fr)
            return self.access(o, i, e), o
        if k == "call":
            f, obj = self.expr2(e.f[0], fr)
            if tname(f) != "function": raise Panic("notfun", node=e.f[0])
            args = [self.expr(a, fr) for a in e.f[1]]
            return self.call_at(f, args, obj, e), None
        raise AssertionError(k)

    def call_at(self, f, args, obj, node):
        """A panic without a position of its own is reported where the call is."""
        self.at = node
        try: return self.call(f, args, obj)
        except Panic as p:
            if p.node is None: p.node = node
            raise

    def access(self, o, i, e):
        t = tname(o)
        node = fieldpos(e)
        if t == "dict":
            x = o.get(i)
            if x is None: raise Panic("index", node=node)
            return x[1]
        if t == "array":
            if tname(i) != "int": raise Panic("type", node=node)
            if not 0 <= i < len(o.a): raise Panic("index", node=node)
            return o.a[i]
        if t == "string":
            if tname(i) != "int": raise Panic("type", node=node)
            if not 0 <= i < len(o): raise Panic("index", node=node)
            return Byte(o[i])
        if t == "error":
            if i == b"description": return o.desc
            if i == b"context": return o.ctx
            raise Panic("index", node=node)
        raise Panic("type", node=e.f[0])

    def binop(self, e, fr):
        op = e.f[0]
        a = self.expr(e.f[1], fr)
        if op in ("and", "or"):
            if a is not True and a is not False: raise Panic("type", node=e.f[1])
            if (op == "and") != a: return a
            b = self.expr(e.f[2], fr)
            if b is not True and b is not False: raise Panic("type", node=e.f[2])
            return b
        b = self.expr(e.f[2], fr)
        try: return self.binval(op, a, b)
        except Panic as p:
            p.node = e
            if p.kind == "type":
                ta, tb = tname(a), tname(b)
                if op == "++": p.node = e.f[2 if ta == "string" else 1]
                elif op in ("+", "-", "*", "/", "%"): p.node = e.f[2 if ta in ("int", "float") else 1]
                else: p.node = e.f[2 if ta in ORDERED else 1]
            raise

    def binval(self, op, a, b):
        if op == "==": return equal(a, b)
        if op == "!=": return not equal(a, b)
        ta, tb = tname(a), tname(b)
        if op == "++":
            if ta != "string" or tb != "string": raise Panic("type")
            if len(a) + len(b) > 1 << 20: raise Budget()
            return a + b
        if op in ("<", "<=", ">", ">="):
            if ta not in ORDERED or ta != tb: raise Panic("type")
            c = cmp_val(a, b)
            return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
        return arith(op, a, b)

    def call(self, f, args, obj):
        self.tick()
        if isinstance(f, Native): return f.f(args, obj)
        self.depth += 1
        if self.depth > self.max_depth: self.max_depth = self.depth
        try:
            if len(args) != len(f.node.f[0]): raise Panic("arity")
            fr = Frame(f.frame, obj)
            for d, a in zip(f.node.decl, args): fr.cells[d] = [a]
            try: return self.block(f.node.f[1], fr)
            except _Return as r: return r.v
        finally:
            self.depth -= 1


def resolve(block, globals_=("std",)):
    r = Resolver(globals_)
    r.block(block)
    return r.errors


def clone(x):
    """A copy of the tree in which no node is shared."""
    if isinstance(x, N): return N(x.k, *[clone(y) for y in x.f])
    if isinstance(x, list): return [clone(y) for y in x]
    if isinstance(x, tuple): return tuple(clone(y) for y in x)
    return x
