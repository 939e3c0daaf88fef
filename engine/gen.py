"""Random program generator for the core language. Programs are mostly well-typed; every value of
interest is traced. Profiles shift weights between expressions, control flow, closures and panics."""
import math
from .lang import *

NAMES = ["a", "b", "c", "d", "e", "x", "y", "z", "ending", "iff", "do_", "_", "_t", "nil1", "truee",
         "notx", "andy", "oreo", "selfish", "inn", "letter", "fork", "whilex", "returned", "X9", "functional"]
FIELDS = ["a", "b", "x", "len", "value", "finished", "ending", "orx", "k1"]
INTS = [0, 1, 2, 3, 5, 7, 10, 64, 100, -1, -2, -7, 255, 256]
EDGE = [I64_MAX, I64_MIN, I64_MAX - 1, I64_MIN + 1, 1 << 62, -(1 << 62), 1 << 32, (1 << 31) - 1, 3037000499,
        3037000500, -3037000500, 4294967296, 9007199254740993]
FLOATS = [0.0, 1.0, -1.0, 0.5, 2.5, -0.0, 3.25, 100.0, 1e3, 0.1]
FEDGE = [math.inf, -math.inf, math.nan, 1e308, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308,
         1e16, 1e15, 123456789.125, 1e-5, 9.99e-6, 9007199254740993.0]
STRS = [b"", b"a", b"b", b"ab", b"hello", b"x y", b"\n", b"caf\xc3\xa9", b"\xff\x00", b"z" * 20, b"A", b"10", b"9"]

SCALARS = ["int", "float", "bool", "string", "char", "nil"]


class VI:
    __slots__ = ("type", "ro", "depth")
    def __init__(self, t, ro=False): self.type, self.ro = t, ro


class Gen:
    def __init__(self, rng, profile="mix", size=40):
        self.r = rng
        self.frames = [[{"std": VI("std", True), "S": VI("x", True), "T": VI("x", True), "V": VI("x", True), "S_sort": VI("x", True), "__P": VI("x", True)}]]
        self.tagn = 0
        self.profile = profile
        self.budget = size
        self.loops = [0]
        self.rets = [None]      # return type stack
        self.has_self = [None]  # type of self
        self.panicky_out = {"mix": 0.01, "expr": 0.0, "flow": 0.005, "scope": 0.005, "panic": 0.01, "gc": 0.005}[profile]
        self.panicky_in = {"mix": 0.06, "expr": 0.08, "flow": 0.05, "scope": 0.03, "panic": 0.2, "gc": 0.05}[profile]
        self.incatch = 0
        self.effects = {"mix": 0.08, "expr": 0.03, "flow": 0.35, "scope": 0.03, "panic": 0.15, "gc": 0.02}[profile]

    @property
    def panicky(self): return self.panicky_in if self.incatch else self.panicky_out

    # ---- helpers
    def ch(self, p): return self.r.random() < p
    def pick(self, l): return self.r.choice(l)
    def tag(self):
        self.tagn += 1
        return "t%d" % self.tagn

    def visible(self):
        seen = {}
        for fr in reversed(self.frames):
            for sc in reversed(fr):
                for n, v in sc.items():
                    if n not in seen: seen[n] = v
        return seen

    def vars(self, t, assignable=False):
        out = []
        for n, v in self.visible().items():
            if self.sub(v.type, t) and not (assignable and v.ro): out.append(n)
        return out

    def sub(self, a, b): return a == b

    def fresh(self):
        sc = self.frames[-1][-1]
        for _ in range(8):
            n = self.pick(NAMES)
            if n not in sc: return n
        i = 0
        while "v%d" % i in sc: i += 1
        return "v%d" % i

    def declare(self, n, t, ro=False): self.frames[-1][-1][n] = VI(t, ro)

    def rtype(self, depth=0):
        r = self.r.random()
        if r < 0.35: return "int"
        if r < 0.45: return "string"
        if r < 0.55: return "bool"
        if r < 0.62: return "float"
        if r < 0.66: return "char"
        if r < 0.68: return "nil"
        if r < 0.70: return "error"
        if depth > 1: return "int"
        if r < 0.80: return ("arr", self.rtype(depth + 1))
        if r < 0.88: return ("rec", tuple(sorted({f: self.rtype(depth + 1) for f in self.r.sample(FIELDS, self.r.randint(0, 3))}.items())))
        return ("fun", tuple(self.rtype(depth + 1) for _ in range(self.pick([0, 0, 1, 1, 2, 3]))), self.rtype(depth + 1))

    # ---- expressions
    def wrap(self, e):
        """Maybe make the evaluation of e observable."""
        if self.ch(self.effects): return call(var("V"), lit(self.tag().encode()), e)
        return e

    def expr(self, t, d=0):
        e = self.expr_(t, d)
        if self.ch(0.04): e = N("paren", e)
        return self.wrap(e)

    def int_lit(self):
        if self.ch(0.03 if self.profile != "expr" else 0.25): return lit(self.pick(EDGE))
        return lit(self.pick(INTS) if self.ch(0.7) else self.r.randint(-50, 50))

    def literal(self, t):
        if t == "int": return self.int_lit()
        if t == "float": return lit(self.pick(FEDGE) if self.ch(0.04 if self.profile != "expr" else 0.3) else self.pick(FLOATS))
        if t == "bool": return lit(self.ch(0.5))
        if t == "string": return lit(self.pick(STRS))
        if t == "char": return lit(Byte(self.pick([0, 10, 39, 65, 97, 98, 127, 128, 255])))
        if t == "nil": return lit(None)
        if t == "error": return scall("error", lit(self.pick(STRS)), self.literal("int"))
        return None

    def expr_(self, t, d):
        if self.ch(self.panicky * 0.3): return self.bad(t, d)
        vs = self.vars(t)
        if vs and self.ch(0.35): return var(self.pick(vs))
        if d > 4 and not isinstance(t, tuple):
            return var(self.pick(vs)) if vs and self.ch(0.5) else self.literal(t)
        # generic forms
        r = self.r.random()
        if r < 0.06: return if_(self.expr("bool", d + 1), *self.two_blocks(t, d + 1))
        if r < 0.14:
            e = self.call_of(t, d + 1)
            if e is not None: return e
        if r < 0.20:
            e = self.field_of(t, d + 1)
            if e is not None: return e
        if r < 0.23 and not isinstance(t, tuple) and d < 3:   # IIFE
            return call(N("paren", self.func(("fun", (), t), d + 1)))
        if r < 0.25 and self.rets[-1] == "error" and t not in ("error", "nil"):
            # `?` on a non-error passes through
            return N("try", self.postfixable(self.expr(t, d + 1)))
        if t == "int":
            k = self.r.random()
            if k < 0.3: return self.literal(t)
            if k < 0.75:
                op = self.pick(["+", "-", "+", "-", "*", "/", "%"])
                b = self.expr("int", d + 1) if op not in "/%" or self.ch(0.2) else lit(self.pick([1, 2, 3, 7, -2, -3, 10]))
                return bin_(op, self.expr("int", d + 1), b)
            if k < 0.82: return un("-", self.expr("int", d + 1))
            if k < 0.92:
                c = self.pick(["string", ("arr", "int")])
                return scall("len", self.expr(c, d + 1))
            return scall("int", self.expr(self.pick(["int", "float"]), d + 1)) if self.ch(0.5) else self.literal(t)
        if t == "float":
            if self.ch(0.3): return self.literal(t)
            if self.ch(0.15): return un("-", self.expr("float", d + 1))
            if self.ch(0.15): return scall("float", self.expr("int", d + 1))
            return bin_(self.pick("+-*/%"), self.expr("float", d + 1), self.expr("float", d + 1))
        if t == "bool":
            k = self.r.random()
            if k < 0.2: return self.literal(t)
            if k < 0.45:
                x = self.pick(["int", "int", "float", "string", "char"])
                return bin_(self.pick(["<", "<=", ">", ">="]), self.expr(x, d + 1), self.expr(x, d + 1))
            if k < 0.65:
                x = self.pick(SCALARS + [("arr", "int"), "error"])
                y = x if self.ch(0.8) else self.pick(SCALARS)
                return bin_(self.pick(["==", "!="]), self.expr(x, d + 1), self.expr(y, d + 1))
            if k < 0.75: return un("not", self.expr("bool", d + 1))
            return bin_(self.pick(["and", "or"]), self.expr("bool", d + 1), self.expr("bool", d + 1))
        if t == "string":
            if self.ch(0.4): return self.literal(t)
            if self.ch(0.6): return bin_("++", self.expr("string", d + 1), self.expr("string", d + 1))
            if self.ch(0.5): return scall("type", self.expr(self.rtype(1), d + 1))
            return scall("to_string", self.expr(self.pick(["int", "bool", "float"]), d + 1))
        if t in ("char", "nil"): return self.literal(t)
        if t == "error":
            return scall("error", self.expr("string", d + 1), self.expr(self.rtype(1) if d < 3 else "int", d + 1))
        if t[0] == "arr":
            n = self.pick([0, 1, 1, 2, 3]) if d < 4 else 0
            return N("arr", [self.expr(t[1], d + 1) for _ in range(n)])
        if t[0] == "rec":
            return N("dict", [(f, self.expr(ft, d + 1)) for f, ft in t[1]])
        if t[0] == "fun": return self.func(t, d + 1)
        raise AssertionError(t)

    def postfixable(self, e): return N("paren", e)

    def bad(self, t, d):
        """An expression that (almost surely) panics."""
        k = self.r.randint(0, 11)
        if k == 0: return bin_(self.pick(["/", "%"]), self.expr("int", d + 1), lit(0))
        if k == 1: return bin_(self.pick(["+", "*"]), lit(I64_MAX), lit(self.pick([2, 3, I64_MAX])))
        if k == 2: return idx(N("arr", [self.expr("int", d + 1)]), lit(self.pick([1, -1, 5, I64_MIN])))
        if k == 3: return call(N("paren", self.expr("int", d + 1)), self.expr("int", d + 1))
        if k == 4: return scall("panic", self.expr("string", d + 1))
        if k == 5: return bin_(self.pick(["+", "<", "++", "and"]), self.expr("int", d + 1), self.expr("string", d + 1))
        if k == 6: return dot(N("dict", []), "missing")
        if k == 7: return call(N("paren", self.func(("fun", ("int",), "int"), d + 1)), *[self.expr("int", d + 1) for _ in range(self.pick([0, 2, 3]))])
        if k == 8: return if_(self.expr("int", d + 1), [es(lit(1))], [es(lit(2))])
        if k == 9: return scall("assert", lit(False))
        if k == 10: return scall("pop", N("arr", []))
        return un(self.pick(["-", "not"]), self.expr("string", d + 1))

    def call_of(self, t, d):
        cands = [(n, v.type) for n, v in self.visible().items()
                 if isinstance(v.type, tuple) and v.type[0] == "fun" and v.type[2] == t]
        if not cands: return None
        n, ft = self.pick(cands)
        return call(var(n), *[self.expr(p, d + 1) for p in ft[1]])

    def field_of(self, t, d):
        cands = []
        for n, v in self.visible().items():
            if isinstance(v.type, tuple) and v.type[0] == "rec":
                for f, ft in v.type[1]:
                    if ft == t: cands.append(dot(var(n), f) if self.ch(0.7) else idx(var(n), lit(f.encode())))
                    elif isinstance(ft, tuple) and ft[0] == "fun" and ft[2] == t:
                        cands.append(call(dot(var(n), f), *[self.expr(p, d + 1) for p in ft[1]]))
        st = self.has_self[-1]
        if st is not None and isinstance(st, tuple) and st[0] == "rec":
            for f, ft in st[1]:
                if ft == t: cands.append(dot(N("self"), f))
        return self.pick(cands) if cands else None

    def two_blocks(self, t, d):
        out = []
        for _ in range(2):
            self.frames[-1].append({})
            b = []
            if self.ch(0.25): b += self.stmts(self.r.randint(1, 2), d + 2)
            b.append(es(self.expr(t, d + 1)))
            self.frames[-1].pop()
            out.append(b)
        return out

    # ---- functions
    def func(self, t, d, selft=None, rec=None):
        params = []
        self.frames.append([{}]); self.loops.append(0); self.rets.append(t[2]); self.has_self.append(selft)
        for pt in t[1]:
            n = self.fresh(); self.declare(n, pt, ro=(rec is not None and len(params) == 0)); params.append(n)
        body = self.fbody(t[2], d)
        self.has_self.pop(); self.rets.pop(); self.loops.pop(); self.frames.pop()
        return fn(params, body)

    def fbody(self, t, d):
        n = self.pick([0, 0, 1, 2, 3]) if d < 4 else 0
        b = self.stmts(n, d + 1)
        b += self.tail(t, d)
        return b

    def tail(self, t, d):
        r = self.r.random()
        if t == "nil" and r < 0.4:
            n = self.fresh(); s = let(n, self.expr("int", d + 1)); self.declare(n, "int"); return [s]
        if r < 0.45: return [es(self.expr(t, d + 1))]
        if r < 0.75: return [ret(self.expr(t, d + 1))]
        if d > 4: return [es(self.expr(t, d + 1))]
        # if-expression in tail position, each branch with its own tail
        c = self.expr("bool", d + 1)
        bl = []
        for _ in range(2):
            self.frames[-1].append({})
            bl.append((self.stmts(1, d + 2) if self.ch(0.3) else []) + self.tail(t, d + 1))
            self.frames[-1].pop()
        return [es(if_(c, bl[0], bl[1]))]

    # ---- statements
    def scoped(self, n, d, extra=None):
        self.frames[-1].append({})
        for k, v in (extra or {}).items(): self.frames[-1][-1][k] = v
        b = self.stmts(n, d)
        self.frames[-1].pop()
        return b

    def stmts(self, n, d):
        out = []
        for _ in range(n):
            if self.budget <= 0: break
            self.budget -= 1
            out += self.stmt(d)
        return out

    def trace_vars(self):
        vs = [n for n, v in self.visible().items() if v.type not in ("std", "x", "it")]
        if not vs: return []
        return [trace(self.tag(), N("arr", [var(n) for n in self.r.sample(vs, min(len(vs), 4))]))]

    def stmt(self, d):
        r = self.r.random()
        flow = self.profile in ("flow",)
        if d > 5: r *= 0.5
        if r < 0.22:
            t = self.rtype()
            n = self.fresh()
            if isinstance(t, tuple) and t[0] == "fun" and self.ch(0.5):
                f = self.func(t, d + 1)
                self.declare(n, t)
                return [N("fundef", n, f)]
            e = self.expr(t, d)
            self.declare(n, t)
            # `let x = x` would refer to the new x: avoid self reference except inside functions
            if mentions(e, n): self.frames[-1][-1].pop(n); return [trace(self.tag(), e)]
            return [let(n, e)]
        if r < 0.34:
            if self.profile in ("expr", "panic") and self.ch(0.85):
                self.incatch += 1
                self.frames.append([{}]); self.loops.append(0); self.rets.append("int"); self.has_self.append(None)
                e = self.expr(self.rtype(), max(0, d - 1))
                self.has_self.pop(); self.rets.pop(); self.loops.pop(); self.frames.pop()
                self.incatch -= 1
                return [trace(self.tag(), scall("catch", fn([], [es(e)])))]
            return [trace(self.tag(), self.expr(self.rtype(), d))]
        if r < 0.46:
            t = self.pick(["int", "int", "string", "float", "bool", ("arr", "int")])
            vs = self.vars(t, assignable=True)
            if vs: return [assign(var(self.pick(vs)), self.expr(t, d))]
            return self.trace_vars()
        if r < 0.54: return self.mutate(d)
        if r < 0.60 and self.profile in ("panic", "mix", "gc"): return self.catch_stmt(d)
        if r < 0.60: return self.closure_kit(d)
        if r < 0.68:
            c = self.expr("bool", d)
            t = self.scoped(self.r.randint(1, 3), d + 1) or [es(lit(None))]
            t = t + self.escape(d)
            o = self.scoped(self.r.randint(1, 2), d + 1) if self.ch(0.5) else []
            if self.ch(0.2): o = [es(if_(self.expr("bool", d), self.scoped(1, d + 1), self.scoped(1, d + 1)))]
            return [es(if_(c, t, o))]
        if r < 0.76: return self.while_stmt(d)
        if r < 0.86: return self.for_stmt(d)
        if r < 0.92: return self.closure_kit(d)
        if r < 0.95: return self.method_kit(d)
        if r < 0.98: return self.try_kit(d)
        return self.recursion(d)

    def escape(self, d):
        """Maybe leave the enclosing loop or function."""
        if self.loops[-1] and self.ch(0.25): return [brk()]
        if self.rets[-1] is not None and self.ch(0.2):
            if self.rets[-1] == "nil" and self.ch(0.5): return [ret(None)]
            return [ret(self.expr(self.rets[-1], d + 1))]
        return []

    def while_stmt(self, d):
        i = self.fresh()
        n = self.r.randint(0, 4)
        s = [let(i, lit(0))]
        self.declare(i, "int", ro=True)
        self.loops[-1] += 1
        c = bin_("<", var(i), lit(n))
        if self.ch(0.3): c = bin_("and", c, self.expr("bool", d + 1))
        body = self.scoped(self.r.randint(1, 3), d + 1)
        # the counter is incremented first, so that nothing can skip it
        body = [assign(var(i), bin_("+", var(i), lit(1)))] + fix_shadow(body, i)
        if self.ch(0.3):
            self.frames[-1].append({})
            body.append(es(if_(self.expr("bool", d + 1), [brk()])))
            self.frames[-1].pop()
        self.loops[-1] -= 1
        return s + [while_(c, body)] + ([trace(self.tag(), var(i))] if self.ch(0.5) else [])

    def for_stmt(self, d):
        k = self.r.random()
        pre = []
        if k < 0.35:
            a, b, st = self.r.randint(-3, 3), self.r.randint(-3, 6), self.pick([1, 1, 2, -1, 3])
            it, t = scall("range", lit(a), lit(b), lit(st)), "int"
        elif k < 0.55:
            t = self.pick(["int", "string"])
            it = scall("iter", self.expr(("arr", t), d + 1))
        elif k < 0.65:
            it, t = scall("iter", self.expr("string", d + 1)), "char"
        else:
            # hand-written iterator with observable calls; may finish with or without a value
            c = self.fresh(); self.declare(c, "int", ro=True)
            n = self.r.randint(0, 4)
            pre = [let(c, lit(0))]
            body = [assign(var(c), bin_("+", var(c), lit(1)))]
            if self.ch(0.5): body.append(trace(self.tag(), var(c)))
            fin = [("finished", bin_(">", var(c), lit(n)))]
            val = [("value", bin_("*", var(c), lit(self.r.randint(1, 9))))]
            body.append(es(N("dict", fin + val if self.ch(0.5) else val + fin)))
            it, t = fn([], body), "int"
            if self.ch(0.4): it = call(var("V"), lit(self.tag().encode()), it)
        n = self.fresh()
        self.loops[-1] += 1
        self.frames[-1].append({n: VI(t)})
        body = self.stmts(self.r.randint(1, 3), d + 1)
        if self.ch(0.4): body.insert(0, trace(self.tag(), var(n)))
        body += self.escape(d) if self.ch(0.5) else []
        self.frames[-1].pop()
        self.loops[-1] -= 1
        return pre + [for_(n, it, body)]

    def mutate(self, d):
        vis = self.visible()
        cands = []
        for n, v in vis.items():
            if isinstance(v.type, tuple):
                if v.type[0] == "arr": cands.append(("arr", n, v.type))
                if v.type[0] == "rec" and v.type[1]: cands.append(("rec", n, v.type))
        if not cands: return self.trace_vars()
        k, n, t = self.pick(cands)
        if k == "arr":
            if self.ch(0.6): return [es(scall("push", self.wrap(var(n)), self.expr(t[1], d + 1)))]
            if self.ch(0.5):
                return [es(if_(bin_(">", scall("len", var(n)), lit(0)),
                               [assign(idx(self.wrap(var(n)), self.wrap(lit(0))), self.expr(t[1], d + 1))]))]
            return [es(if_(bin_(">", scall("len", var(n)), lit(0)), [trace(self.tag(), scall("pop", var(n)))]))]
        f, ft = self.pick(t[1])
        return [assign(dot(self.wrap(var(n)), f) if self.ch(0.6) else idx(self.wrap(var(n)), self.wrap(lit(f.encode()))), self.expr(ft, d + 1))]

    def catch_stmt(self, d):
        self.frames.append([{}]); self.loops.append(0); self.rets.append("int"); self.has_self.append(None)
        self.incatch += 1
        body = self.stmts(self.r.randint(1, 3), d + 1)
        if self.ch(0.6): body.append(trace(self.tag(), self.bad("int", d + 1)))
        body.append(es(self.expr("int", d + 1)))
        self.incatch -= 1
        self.has_self.pop(); self.rets.pop(); self.loops.pop(); self.frames.pop()
        c = scall("catch", fn([], body))
        r = self.r.random()
        if r < 0.3: c = call(var("V"), lit(self.tag().encode()), c)
        if r > 0.7:   # a catch in the middle of an argument list
            c = N("arr", [self.expr("int", d + 1), c, self.expr("int", d + 1)])
        if r > 0.9: c = call(N("paren", fn(["p", "q", "r"], [es(N("arr", [var("r"), var("q"), var("p")]))])), self.expr("int", d + 1), c, self.expr("string", d + 1))
        return [trace(self.tag(), c)] + self.trace_vars()

    def closure_kit(self, d):
        """Getter/setter pairs over a captured variable, at a random function nesting."""
        v, g, s = self.fresh(), None, None
        depth = self.pick([0, 1, 1, 2, 3, 5])
        out = [let(v, self.expr("int", 4))]
        if mentions(out[0].f[1], v): out = [let(v, lit(self.r.randint(0, 99)))]
        self.declare(v, "int")
        g = self.fresh(); self.declare(g, ("fun", (), "int"))
        s = self.fresh(); self.declare(s, ("fun", ("int",), "nil"))
        def nest(body, k):
            """wrap a function value in k immediately called functions, with local noise"""
            f = body
            for i in range(k):
                noise = []
                if self.ch(0.5): noise.append(let("n%d" % i, lit(self.r.randint(0, 9))))
                if self.ch(0.3): noise.append(let("m%d" % i, var(v)))
                f = call(N("paren", fn([], noise + [es(f) if self.ch(0.5) else ret(f)])))
            return f
        out.append(let(g, nest(fn([], [es(var(v))]), depth)))
        out.append(let(s, nest(fn(["p_"], [assign(var(v), bin_("+", var("p_"), lit(1)) if self.ch(0.5) else var("p_"))]), self.pick([0, 1, 2]))))
        out.append(es(call(var(s), self.expr("int", 3))))
        out.append(trace(self.tag(), N("arr", [call(var(g)), var(v)])))
        if self.ch(0.5):
            out.append(assign(var(v), self.int_lit()))
            out.append(trace(self.tag(), N("arr", [call(var(g)), var(v)])))
        return out

    def method_kit(self, d):
        o = self.fresh()
        rt = ("rec", (("a", "int"), ("get", ("fun", (), "int")), ("put", ("fun", ("int",), "nil"))))
        self.declare(o, "objx")
        get = fn([], [es(dot(N("self"), "a"))])
        if self.ch(0.3): get = fn([], [let("me", N("self")), es(call(N("paren", fn([], [es(dot(var("me"), "a"))]))))])
        put = fn(["w"], [assign(dot(N("self"), "a"), var("w"))])
        out = [let(o, N("dict", [("a", self.expr("int", 3)), ("get", get), ("put", put)]))]
        if mentions(out[0], o): out = [let(o, N("dict", [("a", lit(1)), ("get", get), ("put", put)]))]
        out.append(es(call(dot(var(o), "put"), self.expr("int", 3))))
        out.append(trace(self.tag(), call(dot(var(o), "get"))))
        f = self.fresh(); self.declare(f, "objx")
        out.append(let(f, dot(var(o), "get")))
        k = self.r.random()
        if k < 0.3:
            out.append(trace(self.tag(), scall("catch", fn([], [es(call(var(f)))]))))
        elif k < 0.7:
            out.append(trace(self.tag(), call(scall("bind", N("dict", [("a", self.expr("int", 3))]), var(f)))))
        else:
            out.append(trace(self.tag(), scall("type", call(N("paren", fn([], [es(N("self"))]))))))
        self.frames[-1][-1][o] = VI(rt)
        return out

    def try_kit(self, d):
        """A function that leaves through `?` from the middle of some expression."""
        self.frames.append([{}]); self.loops.append(0); self.rets.append("error"); self.has_self.append(None)
        fails = self.ch(0.7)
        val = scall("error", lit(self.pick(STRS)), self.literal("int")) if fails else self.literal("int")
        q = N("try", call(var("V"), lit(self.tag().encode()), val))
        V = lambda e: call(var("V"), lit(self.tag().encode()), e)
        k = self.r.randint(0, 15)
        loop = []
        if k == 0: s = trace(self.tag(), N("arr", [V(lit(1)), q, V(lit(2))]))
        elif k == 1: s = trace(self.tag(), N("dict", [("a", V(lit(1))), ("b", q), ("c", V(lit(3)))]))
        elif k == 2: s = trace(self.tag(), bin_(self.pick(["+", "-", "=="]), V(lit(1)), q))
        elif k == 3: s = trace(self.tag(), bin_("+", q, V(lit(1))) if not fails else bin_("==", q, V(lit(1))))
        elif k == 4: s = trace(self.tag(), call(N("paren", fn(["p", "q"], [es(var("q"))])), V(lit(1)), q))
        elif k == 5: s = while_(bin_("==", q, V(lit(99999))), [trace(self.tag(), lit(1))])
        elif k == 6: s = es(if_(bin_("==", q, lit(1)), [trace(self.tag(), lit(1))], [trace(self.tag(), lit(2))]))
        elif k == 7: s = for_("i", scall("range", lit(0), lit(3), lit(1)), [trace(self.tag(), var("i")), trace(self.tag(), q)])
        elif k == 8: s = for_("i", N("try", V(scall("error", lit(b"it"), lit(0)) if fails else scall("iter", N("arr", [lit(1)])))), [trace(self.tag(), var("i"))])
        elif k == 9: s = ret(q) ; s = es(if_(lit(True), [s]))
        elif k == 10: s = assign(idx(V(N("arr", [lit(1)])), lit(0)), q)
        elif k == 11: s = assign(idx(V(N("arr", [lit(1), lit(2)])), bin_("%", N("paren", q), lit(1)) if not fails else q), V(lit(5)))
        elif k == 12: s = es(un("not", N("paren", bin_("==", q, lit(2)))))
        elif k == 13: s = let("deep", bin_("or", bin_("and", V(lit(True)), bin_("==", q, lit(3))), V(lit(False))))
        elif k == 14: s = trace(self.tag(), scall("len", N("arr", [N("arr", [q])])))
        else: s = while_(lit(True), [es(if_(bin_("==", q, lit(0)), [brk()], [brk()]))])
        body = self.stmts(self.pick([0, 1]), d + 3) + [s, trace(self.tag(), lit(b"after"))] + [es(self.expr("error", d + 3))]
        self.has_self.pop(); self.rets.pop(); self.loops.pop(); self.frames.pop()
        c = call(N("paren", fn([], body)))
        if self.ch(0.4): c = N("arr", [V(lit(0)), c, V(lit(9))])
        return [trace(self.tag(), c)]

    def recursion(self, d):
        f = self.fresh(); self.declare(f, "objx")
        n = "n"
        k = self.r.randint(0, 3)
        depth = self.pick([0, 1, 2, 5, 10, 10, 30])
        if k == 0:
            body = [es(if_(bin_("<=", var(n), lit(0)), [es(lit(0))],
                           [es(bin_("+", self.wrap(var(n)), call(var(f), bin_("-", var(n), lit(1)))))]))]
        elif k == 1:  # local survives the inner call
            body = [let("loc", bin_("*", var(n), lit(2))),
                    let("r", if_(bin_("<=", var(n), lit(0)), [es(lit(0))], [es(call(var(f), bin_("-", var(n), lit(1))))])),
                    trace(self.tag(), N("arr", [var("loc"), var("r")])),
                    es(bin_("+", var("loc"), var("r")))]
        elif k == 2:  # tail call
            body = [es(if_(bin_("<=", var(n), lit(0)), [ret(lit(b"done"))])),
                    let("noise", N("arr", [var(n)])),
                    ret(call(var(f), bin_("-", var(n), lit(1))))]
        else:         # closures created at each level
            body = [let("cl", fn([], [es(bin_("*", var(n), lit(10)))])),
                    let("sub", if_(bin_("<=", var(n), lit(0)), [es(N("arr", []))], [es(call(var(f), bin_("-", var(n), lit(1))))])),
                    es(scall("push", var("sub"), call(var("cl")))),
                    es(var("sub"))]
            depth = min(depth, 10)
        self.frames[-1][-1][f] = VI("objx")
        return [N("fundef", f, fn([n], body)), trace(self.tag(), call(var(f), lit(depth)))]

    def program(self, n=12):
        b = []
        while self.budget > 0 and len(b) < n * 4:
            b += self.stmts(1, 0)
            if self.ch(0.2): b += self.trace_vars()
        b += self.trace_vars()
        return b


def mentions(e, name):
    if isinstance(e, N):
        if e.k == "var" and e.f[0] == name: return True
        return any(mentions(x, name) for x in e.f)
    if isinstance(e, (list, tuple)): return any(mentions(x, name) for x in e)
    return False


def fix_shadow(body, name):
    """The loop counter must not be redeclared in the body before its increment: it is first, so fine."""
    return body


# Prelude additions shared by generated programs.
PRELUDE_V = b"""let V = function (tag, v) T(tag, v) v end """


def machine_globals(m):
    def T(args, obj):
        m.emit(args[0] + b" " + ser(args[1]).encode() + b"\n")
    def V(args, obj):
        m.emit(args[0] + b" " + ser(args[1]).encode() + b"\n")
        return args[1]
    return {"T": Native("T", T), "V": Native("V", V)}


GLOBALS = ("std", "S", "T", "V", "S_sort", "__P")


def expect(block, budget=60000, positions=False):
    """Run the model. -> (stdout bytes, status, panic kind or None)"""
    errs = resolve(block, GLOBALS)
    if errs: raise Budget("static: %r" % (errs[0][:2],))
    m = Machine(budget)
    m.positions = positions
    try:
        m.run(block, machine_globals(m))
        return b"".join(m.out), 0, None, m
    except Panic as p:
        return b"".join(m.out), 127, p.kind + ("@%d:%d" % (where(p.node) or (0, 0)) if positions else ""), m
