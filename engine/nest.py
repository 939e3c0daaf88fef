"""Systematic nestings of constructs around one transfer of control (break, return, `?`, panic)."""
from .lang import *

LOOPS = ["while", "for_range", "for_iter", "for_custom"]
FUNS = ["iife", "method", "bound", "catch", "iterfn", "named", "arg_fn"]
EXPRS = ["x_arr", "x_dict", "x_call", "x_call2", "x_std", "x_bin", "x_binl", "x_and", "x_index", "x_obj", "x_rhs", "x_lidx", "x_lobj", "x_let", "x_for", "x_while",
         "x_ifc", "x_ret", "x_un", "x_callee", "x_stmt", "x_try"]
BLOCKS = ["then", "else", "elseif"]
ESCAPES = ["break", "return", "returnnil", "try", "panic", "none"]


class Nest:
    def __init__(self, rng):
        self.r = rng; self.n = 0

    def tag(self): self.n += 1; return "n%d" % self.n
    def V(self, e): return call(var("V"), lit(self.tag().encode()), e)
    def pad(self):
        """Further elements, mostly none."""
        return [lit(self.r.randrange(9)) for _ in range(self.r.choice([0, 0, 0, 0, 1, 5, 7, 14, 30, 64]))]

    def T(self, e): return trace(self.tag(), e)

    def esc(self, esc, ctx):
        if esc == "break" and ctx["loop"]: e = brk()
        elif esc == "return" and ctx["fn"]: e = ret(self.V(lit(77)))
        elif esc == "returnnil" and ctx["fn"]: e = ret(None)
        elif esc == "try" and ctx["fn"]: e = es(N("try", self.V(scall("error", lit(b"esc"), lit(1)))))
        elif esc == "panic": e = es(scall("panic", self.V(lit(b"boom"))))
        else: return [self.T(lit(b"core"))]
        if ctx["loop"] and ctx.get("it") and self.r.random() < 0.7:
            return [es(if_(bin_("==", var(ctx["it"]), lit(self.r.choice([0, 1, 2, 3]))), [e])), self.T(lit(b"past"))]
        if e.k in ("brk", "ret", "break"): return [es(if_(lit(True), [e]))] if self.r.random() < 0.5 else [e]
        return [e, self.T(lit(b"past"))]

    def build(self, levels, esc, ctx):
        if not levels: return self.esc(esc, ctx)
        k, rest = levels[0], levels[1:]
        pre, post = self.T(lit(b"pre")), self.T(lit(b"post"))
        c2 = dict(ctx)
        d = len(levels)
        def inner(c=c2):
            b = [pre] + self.build(rest, esc, c)
            if b[-1].k not in ("ret", "break"): b.append(post)
            return b
        if k in BLOCKS:
            if k == "then": s = es(if_(self.V(lit(True)), inner(), [self.T(lit(0))]))
            elif k == "else": s = es(if_(self.V(lit(False)), [self.T(lit(0))], inner()))
            else:
                s = es(if_(self.V(lit(True)), inner(), [self.T(lit(1))]))
                for _ in range(self.r.choice([1, 1, 1, 2, 4, 12])): s = es(if_(self.V(lit(False)), [self.T(lit(0))], [s]))
            return [s, self.T(lit(b"end"))]
        if k in LOOPS:
            v = "i%d" % d
            c2["loop"], c2["it"] = True, v
            if k == "while":
                return [let(v, lit(0)), while_(self.V(bin_("<", var(v), lit(3))), [assign(var(v), bin_("+", var(v), lit(1)))] + inner()), self.T(var(v))]
            if k == "for_range": return [for_(v, scall("range", lit(0), lit(3), lit(1)), inner()), self.T(lit(b"end"))]
            if k == "for_iter": return [for_(v, self.V(scall("iter", N("arr", [lit(2), lit(1), lit(0)]))), inner()), self.T(lit(b"end"))]
            cn = "cn%d" % d
            it = fn([], [assign(var(cn), bin_("+", var(cn), lit(1))), self.T(var(cn)),
                         es(N("dict", [("finished", bin_(">", var(cn), lit(3))), ("value", var(cn))]))])
            return [let(cn, lit(0)), for_(v, it, inner()), self.T(var(cn))]
        if k in FUNS:
            c2["loop"], c2["fn"], c2["it"] = False, True, None
            b = inner()
            if b[-1].k not in ("ret", "break"): b.append(es(self.V(lit(d * 10))))
            f = fn([], b)
            if k == "iife": return [self.T(call(N("paren", f))), self.T(lit(b"end"))]
            if k == "catch": return [self.T(scall("catch", f)), self.T(lit(b"end"))]
            if k == "named":
                n = "fx%d" % d
                return [N("fundef", n, f), self.T(N("arr", [self.V(lit(1)), call(var(n)), self.V(lit(2))])), self.T(lit(b"end"))]
            if k == "arg_fn":
                g = fn(["p", "q", "r"], [es(N("arr", [var("p"), var("q"), var("r")]))])
                return [self.T(call(N("paren", g), self.V(lit(1)), call(N("paren", f)), self.V(lit(3)))), self.T(lit(b"end"))]
            if k == "method":
                n = "ob%d" % d
                return [let(n, N("dict", [("m", f), ("z", lit(5))])), self.T(call(dot(var(n), "m"))), self.T(dot(var(n), "z"))]
            if k == "bound":
                return [self.T(call(scall("bind", N("dict", [("z", lit(5))]), f))), self.T(lit(b"end"))]
            if k == "iterfn":
                cn, v = "cn%d" % d, "i%d" % d
                f.f[1].insert(0, assign(var(cn), bin_("+", var(cn), lit(1))))
                if f.f[1][-1].k == "expr":
                    f.f[1][-1] = es(N("dict", [("finished", bin_(">", var(cn), lit(2))), ("value", var(cn))]))
                return [let(cn, lit(0)), for_(v, f, [self.T(var(v))]), self.T(lit(b"end"))]
        # expression contexts: the inner statements run inside an if-expression in operand position
        b = inner()
        if b[-1].k not in ("ret", "break"): b.append(es(lit(1)))
        x = if_(self.V(lit(True)), b, [es(lit(2))])
        end = [self.T(lit(b"end"))]
        V = self.V
        if k == "x_arr": return [self.T(N("arr", self.pad() + [V(lit(0)), x, V(lit(9))] + self.pad()))] + end
        if k == "x_dict": return [self.T(N("dict", [("p%d" % i, e) for i, e in enumerate(self.pad())] + [("a", V(lit(0))), ("b", x), ("c", V(lit(9)))] + [("q%d" % i, e) for i, e in enumerate(self.pad())]))] + end
        if k == "x_call":
            p, q = self.pad(), self.pad()
            ps = ["p%d" % i for i in range(len(p))]; qs = ["q%d" % i for i in range(len(q))]
            return [self.T(call(N("paren", fn(ps + ["a", "b", "c"] + qs, [es(N("arr", [var(y) for y in (qs + ["c", "b", "a"] + ps)]))])), *p, V(lit(0)), x, V(lit(9)), *q))] + end
        if k == "x_call2":   # nested pending argument lists
            g = lambda *a: call(N("paren", fn(["a", "b"], [es(N("arr", [var("a"), var("b")]))])), *a)
            return [self.T(g(V(lit(0)), g(V(lit(1)), x)))] + end
        if k == "x_std": return [self.T(scall("range", V(lit(0)), x, V(lit(9))))] + end
        if k == "x_bin": return [self.T(bin_("+", V(lit(5)), x))] + end
        if k == "x_binl": return [self.T(bin_("-", x, V(lit(5))))] + end
        if k == "x_and": return [self.T(bin_("and", V(lit(True)), bin_("==", x, V(lit(1)))))] + end
        if k == "x_index": return [self.T(idx(V(N("arr", [lit(4), lit(5)])), x))] + end
        if k == "x_obj": return [self.T(idx(N("arr", [lit(4), x]), V(lit(1))))] + end
        if k == "x_rhs":
            n = "as%d" % d
            return [let(n, lit(0)), assign(var(n), x), self.T(var(n))] + end
        if k == "x_lidx":
            n = "ar%d" % d
            return [let(n, N("arr", [lit(1), lit(2)])), assign(idx(V(var(n)), x), V(lit(8))), self.T(var(n))] + end
        if k == "x_lobj":
            n = "ar%d" % d
            return [let(n, N("arr", [N("arr", [lit(1)]), N("arr", [lit(2)])])), assign(idx(idx(var(n), x), V(lit(0))), V(lit(8))), self.T(var(n))] + end
        if k == "x_let":
            n = "lt%d" % d
            return [let(n, x), self.T(var(n))] + end
        if k == "x_for": return [for_("q%d" % d, scall("range", lit(0), x, lit(1)), [self.T(var("q%d" % d))])] + end
        if k == "x_while":
            n = "wh%d" % d
            return [let(n, lit(0)), while_(bin_("and", bin_("<", var(n), lit(2)), bin_("==", x, lit(1))), [assign(var(n), bin_("+", var(n), lit(1))), self.T(var(n))])] + end
        if k == "x_ifc": return [es(if_(bin_("==", x, V(lit(1))), [self.T(lit(b"y"))], [self.T(lit(b"n"))]))] + end
        if k == "x_ret":
            return [self.T(call(N("paren", fn([], [ret(bin_("+", V(lit(3)), lit(4)))])))), ] + [let("rv%d" % d, x)] + end
        if k == "x_un": return [self.T(un("-", N("paren", x)))] + end
        if k == "x_callee":
            y = if_(self.V(lit(True)), b[:-1] + ([es(fn(["a"], [es(var("a"))]))] if b[-1].k == "expr" else [b[-1]]), [es(lit(2))])
            return [self.T(call(N("paren", y), V(lit(6))))] + end
        if k == "x_stmt": return [es(x)] + end
        if k == "x_try":
            if ctx["fn"]: return [self.T(N("try", N("paren", x)))] + end
            return [es(x)] + end
        raise AssertionError(k)

    def program(self, levels, esc):
        b = [let("g0", lit(100))] + self.build(levels, esc, {"loop": False, "fn": False})
        return b + [self.T(var("g0"))]
