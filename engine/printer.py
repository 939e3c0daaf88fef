"""Prints model programs as Hush source in many layouts, recording the position of every node."""
import math
from .lang import *

PREC = {"or": 1, "and": 2, "==": 3, "!=": 3, "<": 4, "<=": 4, ">": 4, ">=": 4, "++": 5,
        "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}
ESC = {0x22: b'\\"', 0x27: b"\\'", 0x0a: b"\\n", 0x09: b"\\t", 0x00: b"\\0", 0x5c: b"\\\\"}
KEYWORDS = {"let", "if", "then", "else", "elseif", "end", "for", "in", "do", "while", "function",
            "return", "break", "self", "nil", "true", "false", "not", "and", "or"}


def str_token(b, rng=None):
    out = bytearray(b'"')
    for c in b:
        if c in (0x22, 0x5c): out += ESC[c]
        elif c in ESC and (rng is None or rng.random() < 0.5): out += ESC[c]
        else: out.append(c)
    out += b'"'
    return bytes(out)


def char_token(c, rng=None):
    if c in (0x27, 0x5c): return b"'" + ESC[c] + b"'"
    if c in ESC and (rng is None or rng.random() < 0.5): return b"'" + ESC[c] + b"'"
    return b"'" + bytes([c]) + b"'"


def float_digits(f):
    """A literal for a finite non-negative float, or None when it has no reasonable literal."""
    r = repr(f)
    if "e" not in r: return r.encode()
    m, e = r.split("e"); e = int(e)
    if e >= 0: return (m + "e" + str(e)).encode()
    if e > -40:
        from decimal import Decimal
        return format(Decimal(r), "f").encode()
    return None


class Tok:
    __slots__ = ("t", "nodes")
    def __init__(self, t): self.t = t; self.nodes = []


class Printer:
    def __init__(self, rng=None, trailing=0.0, elseif=0.5, fundef=None):
        self.rng = rng
        self.toks = []
        self.trailing, self.elseif = trailing, elseif

    def chance(self, p): return self.rng is not None and self.rng.random() < p

    def put(self, t, node=None):
        if isinstance(t, str): t = t.encode()
        tk = Tok(t)
        if node is not None: tk.nodes.append(node)
        self.toks.append(tk)
        return tk

    def commas(self, items, one):
        for i, x in enumerate(items):
            if i: self.put(",")
            one(x)
        if items and self.chance(self.trailing): self.put(",")

    def block(self, b):
        for i, s in enumerate(b):
            start = len(self.toks)
            self.stmt(s)
            if i and self.toks[start].t in (b"(", b"[", b"-"):
                assert s.k == "expr", s.k
                body = self.toks[start:]
                del self.toks[start:]
                self.put("if"); self.put("true"); self.put("then")
                self.toks += body
                self.put("end")

    def stmt(self, s):
        k = s.k
        if k == "let":
            self.put("let"); self.put(s.f[0], s)
            if s.f[1].k == "lit" and s.f[1].f[0] is None and self.chance(0.5): return
            self.put("="); self.expr(s.f[1])
        elif k == "fundef":
            f = s.f[1]
            self.put("function", f); self.put(s.f[0], s); self.fnrest(f)
        elif k == "assign":
            self.expr(s.f[0], 9); self.put("=", s); self.expr(s.f[1])
        elif k == "ret":
            self.put("return", s)
            if s.f[0] is not None: self.expr(s.f[0])
        elif k == "break": self.put("break", s)
        elif k == "while":
            self.put("while"); self.expr(s.f[0]); self.put("do"); self.block(s.f[1]); self.put("end")
        elif k == "for":
            self.put("for"); self.put(s.f[0], s); self.put("in"); self.expr(s.f[1])
            self.put("do"); self.block(s.f[2]); self.put("end")
        elif k == "expr": self.expr(s.f[0])
        else: raise AssertionError(k)

    def fnrest(self, f):
        self.put("("); self.commas(f.f[0], lambda p: self.put(p)); self.put(")")
        self.block(f.f[1]); self.put("end")

    def paren_if(self, cond, f):
        if cond: self.put("(")
        f()
        if cond: self.put(")")

    def value(self, v, lvl, node):
        t = tname(v)
        if t == "nil": self.put("nil", node)
        elif t == "bool": self.put("true" if v else "false", node)
        elif t == "int":
            if v == I64_MIN:
                self.put("("); self.put("-"); self.put(str(I64_MAX)); self.put("-", node); self.put("1"); self.put(")")
            elif v < 0: self.paren_if(lvl > 8, lambda: (self.put("-", node), self.put(str(-v))))
            else:
                self.put(("0" * self.rng.randint(1, 3) if self.chance(0.05) else "") + str(v), node)
        elif t == "float":
            if v != v or abs(v) == math.inf:
                n = "0.0" if v != v else "1.0"
                self.put("(")
                if v == -math.inf: self.put("-")
                self.put(n); self.put("/", node); self.put("0.0"); self.put(")")
            else:
                d = float_digits(abs(v))
                if d is None:
                    neg = math.copysign(1, v) < 0
                    def sf(): self.put("std"); self.put("."); self.put("float"); self.put("(", None if neg else node); self.put('"%s"' % repr(abs(v))); self.put(")")
                    if neg: self.paren_if(lvl > 8, lambda: (self.put("-", node), sf()))
                    else: sf()
                    return
                if math.copysign(1, v) < 0:
                    self.paren_if(lvl > 8, lambda: (self.put("-", node), self.put(d)))
                else: self.put(d, node)
        elif t == "char": self.put(char_token(v.v, self.rng), node)
        elif t == "string": self.put(str_token(v, self.rng), node)
        else: raise AssertionError("literal of type " + t)

    def expr(self, e, lvl=0):
        k = e.k
        if k == "lit": self.value(e.f[0], lvl, e)
        elif k == "var": self.put(e.f[0], e)
        elif k == "self": self.put("self", e)
        elif k == "raw": self.put(e.f[0], e)
        elif k == "paren": self.put("("); self.expr(e.f[0]); self.put(")")
        elif k == "arr":
            self.put("[", e); self.commas(e.f[0], self.expr); self.put("]")
        elif k == "dict":
            self.put("@[", e)
            def one(kv): self.put(kv[0]); self.put(":"); self.expr(kv[1])
            self.commas(e.f[0], one); self.put("]")
        elif k == "fn": self.put("function", e); self.fnrest(e)
        elif k == "un":
            def f(): self.put(e.f[0], e); self.expr(e.f[1], 8)
            self.paren_if(lvl > 8, f)
        elif k == "try":
            self.expr(e.f[0], 9); self.put("?", e)
        elif k == "bin":
            p = PREC[e.f[0]]
            def f():
                self.expr(e.f[1], p); self.put(e.f[0], e); self.expr(e.f[2], p + 1)
            self.paren_if(lvl > p, f)
        elif k == "if":
            self.put("if", e); self.ifrest(e); self.put("end")
        elif k == "dot":
            self.expr(e.f[0], 9); self.put(".", e); self.put(e.f[1], Key(e))
        elif k == "idx":
            self.expr(e.f[0], 9); self.put("[", e); self.expr(e.f[1]); self.put("]")
        elif k == "call":
            self.expr(e.f[0], 9); self.put("(", e); self.commas(e.f[1], self.expr); self.put(")")
        else: raise AssertionError(k)

    def ifrest(self, e):
        self.expr(e.f[0]); self.put("then"); self.block(e.f[1])
        o = e.f[2]
        if not o:
            if self.chance(0.1): self.put("else")
            return
        if len(o) == 1 and o[0].k == "expr" and o[0].f[0].k == "if" and self.chance(self.elseif):
            self.put("elseif", o[0].f[0]); self.ifrest(o[0].f[0])
        else:
            self.put("else"); self.block(o)


def _word(c): return 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c == 95


def need_space(a, b):
    x, y = a[-1], b[0]
    if _word(x) and _word(y): return True
    if chr(x) in "+<>=!@$&" and chr(y) in "+=[{<>": return True
    if a[0:1].isdigit() and (y == 46): return True
    return False


NL_BEFORE = {b"let", b"while", b"for", b"return", b"break", b"end", b"else", b"elseif", b"function", b"if"}


def join(toks, rng=None, style="pretty", start=(1, 0)):
    """Join tokens into source text, setting node.pos = (line, column). Lines from 1, columns from 0."""
    out = bytearray()
    line, col = start
    prev = None
    for tk in toks:
        sep = b""
        if prev is not None:
            ns = need_space(prev, tk.t)
            if style == "tight":
                sep = b" " if ns else b""
                # keep statements apart when in doubt: juxtaposition is legal anyway
            elif style == "pretty":
                sep = b"\n" if tk.t in NL_BEFORE and tk.t != b"if" else b" "
            elif style == "wild":
                r = rng.random()
                if r < 0.35: sep = b" " if ns or rng.random() < 0.5 else b""
                elif r < 0.55: sep = b"\n" + b" " * rng.randint(0, 9)
                elif r < 0.65: sep = b"\t"
                elif r < 0.70: sep = b"\r\n"
                elif r < 0.73: sep = b"\x0c" + b" "
                elif r < 0.80: sep = b"\n" * rng.randint(2, 5)
                else:
                    txt = rng.choice(COMMENTS)
                    if rng.random() < 0.3:
                        txt = bytes(rng.choice([c for c in range(256) if c != 10]) for _ in range(rng.randint(0, 30)))
                    sep = b" #" + txt + b"\n" + b" " * rng.randint(0, 3)
                if ns and not sep: sep = b" "
        elif style == "wild" and rng.random() < 0.3:
            sep = b"#!/usr/bin/env hush\n" if rng.random() < 0.5 else b"\n\t "
        out += sep
        for c in sep:
            if c == 10: line += 1; col = 0
            else: col += 1
        for n in tk.nodes: n.pos = (line, col)
        out += tk.t
        for c in tk.t:
            if c == 10: line += 1; col = 0
            else: col += 1
        prev = tk.t
    if style == "wild" and rng.random() < 0.5: out += rng.choice([b"\n", b"\n# end", b" # no newline at the end", b"\n\n\n"])
    elif style == "pretty": out += b"\n"
    return bytes(out)


COMMENTS = [b" end", b" if while \" unbalanced", b" 'x", b" }{ $x", b" let x = 1", b"# # #", b"",
            " caf\u00e9 \u20ac \U0001f600".encode(), b" \xff\xfe\x80", b" \"str\\", b"-- ))) ]]]"]


def source(block, rng=None, style="pretty", trailing=0.0, elseif=0.5, start=(1, 0)):
    p = Printer(rng, trailing=trailing, elseif=elseif)
    p.block(block)
    return join(p.toks, rng, style, start)
