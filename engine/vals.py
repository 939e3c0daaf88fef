"""Random data values and expressions that build them in different ways."""
import math, struct
from .lang import *

INTS = [0, 1, -1, 2, 3, 97, 98, 127, 128, 255, 256, -128, 1 << 31, 1 << 32, (1 << 53) + 1, I64_MAX, I64_MIN, I64_MAX - 1]
FLOATS = [0.0, -0.0, 1.0, -1.0, 2.0, 97.0, 0.1, 0.30000000000000004, 0.3, math.inf, -math.inf, 1e308, 5e-324, 9007199254740993.0, 1e16, 255.0, 256.0]
STRS = [b"", b"a", b"b", b"ab", b"aa", b"\x00", b"a\x00", b"A", b"97", b"\xff", b"\x80", b"nil", b"true", b"0", b"1", b"[ ]", b"caf\xc3\xa9", b"a" * 300]
CHARS = [0, 1, 9, 10, 48, 49, 65, 97, 98, 127, 128, 255]


def scalar(r, nan=0.0):
    k = r.random()
    if k < 0.05: return None
    if k < 0.13: return r.random() < 0.5
    if k < 0.36: return r.choice(INTS) if r.random() < 0.7 else r.randint(-300, 300)
    if k < 0.58:
        if r.random() < nan: return math.nan
        if r.random() < 0.1:
            f = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
            return f if f == f else 0.0
        return r.choice(FLOATS)
    if k < 0.85: return r.choice(STRS) if r.random() < 0.7 else bytes(r.randrange(256) for _ in range(r.randrange(5)))
    return Byte(r.choice(CHARS))


def data(r, d=0, nan=0.0, err=True, strkeys=False, size=4):
    k = r.random()
    if d > 3 or k < 0.45: return scalar(r, nan)
    if k < 0.7: return Arr([data(r, d + 1, nan, err, strkeys, size) for _ in range(r.randrange(size))])
    if k < 0.92 or not err:
        x = Dct()
        for _ in range(r.randrange(size)):
            key = scalar(r) if r.random() < 0.8 else data(r, d + 2, 0.0, err, strkeys, size)
            if strkeys: key = r.choice(STRS)
            x.set(key, data(r, d + 1, nan, err, strkeys, size))
        return x
    return Err(r.choice(STRS), data(r, d + 1, nan, err, strkeys, size))


def has_nan(v):
    return canon(v) is None


def build(v, r=None):
    """Expression that evaluates to v (fresh objects)."""
    t = tname(v)
    if t == "array":
        if r and r.random() < 0.3:
            st = [let("a", N("arr", []))] + [es(scall("push", var("a"), build(x, r))) for x in v.a] + [es(var("a"))]
            return call(N("paren", fn([], st)))
        return N("arr", [build(x, r) for x in v.a])
    if t == "dict":
        items = list(v.d.values())
        if r: r.shuffle(items)
        if items and all(isinstance(k, bytes) and _ident(k) for k, _ in items) and (not r or r.random() < 0.5):
            return N("dict", [(k.decode(), build(x, r)) for k, x in items])
        if not items: return N("dict", [])
        st = [let("d", N("dict", []))]
        for k, x in items:
            if r and r.random() < 0.2: st.append(assign(idx(var("d"), build(k, r)), lit(b"overwritten")))
            st.append(assign(idx(var("d"), build(k, r)), build(x, r)))
        st.append(es(var("d")))
        return call(N("paren", fn([], st)))
    if t == "error": return scall("error", build(v.desc, r), build(v.ctx, r))
    if r and t == "string" and len(v) > 1 and r.random() < 0.3:
        i = r.randrange(1, len(v)); return bin_("++", lit(v[:i]), lit(v[i:]))
    if r and t == "int" and r.random() < 0.2 and abs(v) < 1 << 60: return bin_("+", lit(v - 1), lit(1))
    return lit(v)


def _ident(b):
    from .printer import KEYWORDS
    s = b.decode("latin1")
    return s.isascii() and s.isidentifier() and s not in KEYWORDS


def src(e, rng=None):
    """Source text of an expression."""
    from . import printer
    p = printer.Printer(rng); p.expr(e)
    return printer.join(p.toks, rng, "pretty").strip().replace(b"\n", b" ") if not _multiline(e) else printer.join(p.toks, rng, "pretty").strip(b" ")


def _multiline(e): return True


# ---------------------------------------------------------------- reading back serialised values
class Parser:
    """Reads the text written by the prelude's S."""
    def __init__(self, b): self.b, self.i = b, 0
    def peek(self): return self.b[self.i:self.i + 1]
    def until(self, stops):
        j = self.i
        while j < len(self.b) and self.b[j:j + 1] not in stops: j += 1
        x = self.b[self.i:j]; self.i = j
        return x
    def value(self):
        c = self.peek(); self.i += 1
        if c == b"n": return None
        if c == b"t": return True
        if c == b"f": return False
        st = (b",", b":", b"]", b"}", b")", b"|", b"", b"\n", b" ")
        if c == b"i": return int(self.until(st))
        if c == b"~":
            x = self.until(st)
            if len(x) == 16 and all(ch in b"0123456789abcdef" for ch in x): return struct.unpack(">d", bytes.fromhex(x.decode()))[0]
            return float(x)
        if c == b"c": return Byte(ord(bytes.fromhex(self.until(st).decode()).decode("utf-8")))
        if c == b"s": return bytes.fromhex(self.until(st).decode())
        if c == b"[":
            out = []
            while self.peek() != b"]":
                out.append(self.value()); self.expect(b",")
            self.i += 1
            return Arr(out)
        if c == b"{":
            d = Dct()
            while self.peek() != b"}":
                k = self.value(); self.expect(b":"); d.set(k, self.value()); self.expect(b",")
            self.i += 1
            return d
        if c == b"E":
            self.expect(b"(")
            if self.peek() == b"!":
                desc = self.until((b"|",)).decode()
            else: desc = bytes.fromhex(self.until((b"|",)).decode())
            self.expect(b"|"); ctx = self.value(); self.expect(b")")
            return Err(desc, ctx)
        if c == b"F": return Native("?", None)
        raise ValueError("cannot read %r at %d" % (self.b[self.i - 1:self.i + 20], self.i))
    def expect(self, c):
        if self.peek() != c: raise ValueError("expected %r at %d in %r" % (c, self.i, self.b[max(0, self.i - 30):self.i + 30]))
        self.i += 1


def parse(b):
    p = Parser(b)
    v = p.value()
    if p.i != len(b): raise ValueError("trailing %r" % b[p.i:p.i + 30])
    return v


def ident(v):
    """Canonical text that identifies a value completely, -0.0 apart from 0.0 and NaN included."""
    t = tname(v)
    if t == "dict": return "{" + "".join(sorted(ident(k) + ":" + ident(x) + "," for k, x in v.d.values())) + "}"
    if t == "array": return "[" + "".join(ident(x) + "," for x in v.a) + "]"
    if t == "error": return "E(%s|%s)" % (v.desc if isinstance(v.desc, str) else v.desc.hex(), ident(v.ctx))
    return ser(v)
