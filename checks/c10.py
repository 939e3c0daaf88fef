"""C10: errors and panics propagate without corrupting state."""
import random
from engine import diff, gen, common
from engine.lang import *
from . import flow, c03


def deepcatch(rng):
    """Panics raised at depth, caught at various frames, with pending arguments, locals, loops and
    iterators around; all variables traced afterwards and used further."""
    b = [let("log", N("arr", [])), let("gl", N("dict", [("n", lit(0)), ("list", N("arr", []))]))]
    kinds = [
        lambda: bin_("/", lit(1), lit(0)), lambda: bin_("+", lit(I64_MAX), lit(1)), lambda: idx(N("arr", []), lit(0)),
        lambda: call(lit(b"nofun")) if False else call(N("paren", lit(3))), lambda: scall("panic", lit(b"p")), lambda: bin_("+", lit(1), lit(b"s")),
        lambda: dot(N("dict", []), "no"), lambda: call(N("paren", fn(["a"], [])),), lambda: if_(lit(3), [es(lit(1))]),
        lambda: scall("assert", lit(False)), lambda: scall("pop", N("arr", [])), lambda: un("not", lit(1)), lambda: scall("len", lit(1)), lambda: scall("len"),
        lambda: scall("typecheck", lit(1), lit(b"string")), lambda: dot(scall("error", lit(b"e"), lit(1)), "nofield"), lambda: idx(lit(b"abc"), lit(3)),
        lambda: bin_("<", lit(1), lit(1.0)), lambda: scall("int", lit(b"x")), lambda: bin_("and", lit(1), lit(True)), lambda: un("-", lit(b"s")),
    ]
    depth = rng.randint(1, 8)
    def body(d):
        pre = [let("a%d" % d, lit(d)), let("b%d" % d, N("arr", [lit(d)]))]
        pre.append(assign(dot(var("gl"), "n"), bin_("+", dot(var("gl"), "n"), lit(1))))
        pre.append(es(scall("push", dot(var("gl"), "list"), lit(d))))
        if d >= depth: return pre + [let("z", rng.choice(kinds)()), trace("UNREACHED", lit(1))]
        f = fn([], body(d + 1))
        k = rng.randint(0, 9)
        c = call(N("paren", f))
        if rng.random() < 0.3: c = scall("catch", f)
        if k == 0: mid = [let("r%d" % d, N("arr", [lit(1), var("a%d" % d), c]))]
        elif k == 1: mid = [let("r%d" % d, call(N("paren", fn(["x", "y", "z"], [es(N("arr", [var("z"), var("y"), var("x")]))])), lit(1), c, lit(3)))]
        elif k == 2: mid = [for_("i%d" % d, scall("range", lit(0), lit(2), lit(1)), [let("loc", bin_("*", var("i%d" % d), lit(2))), let("q", c), trace("it", N("arr", [var("i%d" % d), var("loc")]))])]
        elif k == 3: mid = [let("w%d" % d, lit(0)), while_(bin_("<", var("w%d" % d), lit(2)), [assign(var("w%d" % d), bin_("+", var("w%d" % d), lit(1))), let("q", c)])]
        elif k == 4: mid = [es(if_(bin_("==", c, lit(1)), [trace("th", lit(1))], [trace("el", lit(2))]))]
        elif k == 5: mid = [let("ob%d" % d, N("dict", [("m", f), ("v", lit(d))])), let("r%d" % d, call(dot(var("ob%d" % d), "m")))]
        elif k == 6: mid = [assign(idx(var("b%d" % d), lit(0)), c)]
        elif k == 7: mid = [let("r%d" % d, call(scall("bind", var("gl"), f)))]
        elif k == 8: mid = [let("cl", fn(["u"], [assign(var("a%d" % d), bin_("+", var("a%d" % d), var("u"))), es(c)])), let("r%d" % d, scall("catch", fn([], [es(call(var("cl"), lit(4)))]))), trace("cl", N("arr", [var("r%d" % d), var("a%d" % d)]))]
        else: mid = [let("r%d" % d, bin_("==", var("a%d" % d), c))]
        return pre + mid + [trace("v%d" % d, N("arr", [var("a%d" % d), var("b%d" % d), dot(var("gl"), "n")])), es(var("a%d" % d))]
    for j in range(rng.randint(2, 5)):
        depth = rng.randint(1, 8)
        b.append(let("res%d" % j, scall("catch", fn([], body(0)))))
        b.append(trace("res", N("arr", [var("res%d" % j), var("gl")])))
    b += [let("after", fn(["a", "b"], [let("l", bin_("+", var("a"), var("b"))), es(fn([], [es(var("l"))]))])), trace("after", call(call(var("after"), lit(1), lit(2))))]
    if rng.random() < 0.6:
        b += [trace("last", var("gl")), es(call(N("paren", fn([], body(0))))), trace("UNREACHED?", lit(1))]
    return b


def errors(rng):
    vals = [lit(None), lit(True), lit(5), lit(2.5), lit(Byte(65)), lit(b"str"), N("arr", [lit(1), lit(b"x")]), N("dict", [("a", lit(1))]),
            scall("error", lit(b"inner"), N("arr", [lit(1)]))]
    b = []
    for i, v in enumerate(vals):
        d = rng.choice([b"", b"desc", b"caf\xc3\xa9", b"multi\nline", b"x" * 300])
        b += [let("e%d" % i, scall("error", lit(d), v)), trace("d", dot(var("e%d" % i), "description")), trace("c", dot(var("e%d" % i), "context")),
              trace("ix", idx(var("e%d" % i), lit(b"context"))), trace("bad", scall("catch", fn([], [es(dot(var("e%d" % i), "foo"))]))),
              trace("bad2", scall("catch", fn([], [es(idx(var("e%d" % i), lit(0)))]))) if False else trace("t", scall("type", var("e%d" % i)))]
        for f in ["description", "context", "other"]:
            b.append(trace("ro", scall("catch", fn([], [assign(dot(var("e%d" % i), f), lit(9))]))))
            b.append(trace("ro2", scall("catch", fn([], [assign(idx(var("e%d" % i), lit(f.encode())), lit(9))]))))
        b.append(trace("same", var("e%d" % i)))
        b.append(trace("he", N("arr", [scall("has_error", v), scall("has_error", N("arr", [lit(1), v])), scall("has_error", N("dict", [("k", N("arr", [v]))])), scall("has_error", var("e%d" % i))])))
        kd = "k%d" % i
        b += [let(kd, N("dict", [])), assign(idx(var(kd), v), lit(1)), trace("hk", N("arr", [scall("has_error", var(kd)), scall("has_error", N("arr", [N("arr", []), N("dict", [("z", var(kd))])]))])),
              let(kd + "b", N("dict", [("x", lit(1))])), assign(idx(var(kd + "b"), N("arr", [lit(0), v])), lit(1)), trace("hk2", scall("has_error", var(kd + "b"))),
              trace("hf", scall("has_error", fn([], [es(v)])))]
        b.append(trace("ed", scall("catch", fn([], [es(scall("error", v, lit(1)))]))))
        b.append(trace("as", scall("catch", fn([], [es(scall("assert", v))]))))
        for t in ["nil", "bool", "int", "float", "char", "string", "array", "dict", "function", "error", "nope", "Int", ""]:
            b.append(trace("tc", scall("catch", fn([], [es(scall("typecheck", v, lit(t.encode())))]))))
            b.append(trace("ttc", scall("catch", fn([], [let("r", scall("try_typecheck", v, lit(t.encode()))), es(N("arr", [scall("type", var("r")), if_(bin_("==", scall("type", var("r")), lit(b"error")), [es(dot(var("r"), "context"))], [es(var("r"))])]))]))))
        # `?` passes everything but errors
        b.append(trace("q", call(N("paren", fn(["x"], [let("y", N("try", var("x"))), trace("past", var("y")), es(N("arr", [var("y"), lit(b"end")]))])), v)))
        b.append(trace("q2", call(N("paren", fn([], [es(N("arr", [lit(0), N("try", v if v.k in ("arr", "dict", "call") else N("paren", v)), lit(2)]))])))))
    # mutable context is shared, not copied
    b += [let("ctx", N("arr", [lit(1)])), let("e", scall("error", lit(b"m"), var("ctx"))), es(scall("push", var("ctx"), lit(2))), trace("sh", dot(var("e"), "context")),
          es(scall("push", dot(var("e"), "context"), lit(3))), trace("sh", var("ctx"))]
    # chains of `?`
    n = rng.randint(2, 12)
    b.append(N("fundef", "lvl0", fn(["x"], [es(if_(var("x"), [es(scall("error", lit(b"deep"), lit(n)))], [es(lit(n))]))])))
    for i in range(1, n): b.append(N("fundef", "lvl%d" % i, fn(["x"], [let("r", N("try", call(var("lvl%d" % (i - 1)), var("x")))), trace("ok%d" % i, var("r")), es(bin_("+", var("r"), lit(1)))])))
    b += [trace("ch", call(var("lvl%d" % (n - 1)), lit(True))), trace("ch", call(var("lvl%d" % (n - 1)), lit(False)))]
    return b


def iter_panic(rng):
    """Panics from iterators, native callbacks, partially applied operations."""
    b = [let("a", N("arr", [lit(3), lit(1), lit(2)])), let("st", lit(0))]
    it = fn([], [assign(var("st"), bin_("+", var("st"), lit(1))), es(if_(bin_(">", var("st"), lit(rng.randint(0, 3))), [es(scall("panic", lit(b"it")))])), es(N("dict", [("finished", lit(False)), ("value", var("st"))]))])
    b += [trace("x", scall("catch", fn([], [for_("i", it, [trace("b", var("i"))]), trace("UN", lit(1))]))), trace("st", var("st"))]
    b += [trace("y", scall("catch", fn([], [assign(idx(var("a"), scall("panic", lit(b"ix"))), lit(9))]))), trace("a", var("a")),
          trace("y2", scall("catch", fn([], [assign(idx(var("a"), lit(7)), call(var("V"), lit(b"rhs"), lit(9)))]))), trace("a", var("a")),
          trace("y3", scall("catch", fn([], [es(scall("push", var("a"), scall("panic", lit(1))))]))), trace("a", var("a")),
          trace("y4", scall("catch", fn([], [es(scall("push", var("a"), lit(1), lit(2)))]))), trace("a", var("a")),
          trace("nest", scall("catch", fn([], [let("r", scall("catch", fn([], [es(scall("panic", lit(b"in")))]))), trace("in", var("r")), es(scall("panic", var("r")))]))),
          trace("cc", scall("catch", fn([], [es(scall("catch", fn(["x"], [])))]))), trace("cc2", scall("catch", fn([], [es(scall("catch", lit(1)))]))),
          trace("ce", scall("catch", fn([], [es(scall("error", lit(b"value"), lit(1)))]))), trace("cv", scall("catch", fn([], [ret(N("arr", [lit(1)]))])))]
    return b


def find_errors(rng):
    """std.has_error on large and deep values, where the error may be anywhere or nowhere."""
    b = []
    for i in range(4):
        n = int(10 ** rng.uniform(0.5, 3.3)); where = rng.choice([None, 0, n - 1, rng.randrange(n), n // 2])
        e = scall("error", lit(b"x"), lit(1))
        kind = rng.choice(["arr", "dict", "deep", "mixdeep", "keys"])
        v = "h%d" % i
        if kind == "arr": b.append(let(v, N("arr", [clone(e) if j == where else rng.choice([lit(j), lit(None), N("arr", [])]) for j in range(n)])))
        elif kind == "dict": b.append(let(v, N("dict", [("k%d" % j, clone(e) if j == where else lit(j)) for j in range(n)])))
        elif kind == "keys":
            n = min(n, 300)
            b += [let(v, N("dict", []))] + [assign(idx(var(v), clone(e) if j == where else lit(j)), lit(j)) for j in range(n)]
            if where is not None and where >= n: where = None
        else:
            d = min(n, 60)
            b += [let(v, N("arr", [lit(1)] + ([clone(e)] if where is not None else [])))]
            for j in range(d):
                k = rng.randrange(3) if kind == "mixdeep" else 0
                b.append(assign(var(v), [N("arr", [lit(0), var(v)]), N("dict", [("a", lit(1)), ("z", var(v))]), N("arr", [var(v), lit(2)])][k]))
        b += [trace("he", N("arr", [scall("has_error", var(v)), scall("len", var(v))])), es(if_(lit(True), [trace("he2", scall("has_error", N("arr", [N("dict", [("q", var(v))])])))]))]
    return b


KINDS = [deepcatch, errors, iter_panic, find_errors]


def case(item):
    seed, k = item
    try: return c03.with_budget(KINDS[k](random.Random(seed)), seed)
    except Budget: return {"ok": True, "evals": 0, "stats": {"discarded": 1}}


def messages(item):
    """The description of a caught panic names what was raised; the context is "panic"; an uncaught one
    is reported on stderr and nowhere else."""
    seed = item
    rng = random.Random(seed)
    txt = bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(rng.randint(1, 40)))
    src = b'let e = std.catch(function () std.panic("%s") end)\nstd.println(e.description)\nstd.println(e.context)\nstd.panic("%s")\nstd.println("UNREACHED")\n' % (txt, txt[::-1])
    r = common.hush(src)
    if r.timeout and not r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    lines = r.out.split(b"\n")
    bad = None
    if r.status != 127: bad = "status %s" % r.status
    elif len(lines) != 3 or txt not in lines[0] or lines[1] != b"panic": bad = "caught panic is not described: %r" % r.out
    elif txt[::-1] not in r.err or b"line 4" not in r.err: bad = "uncaught panic is not described: %r" % r.err
    return {"ok": bad is None, "desc": bad, "files": {"program.hsh": src, "observed.txt": r.out + b"\n--\n" + r.err}, "distinct": [txt]}


def run(c):
    c.rule = ("systematic nestings around panic and `?`, panics at depth under pending calls, loops, methods and iterators, error value laws, and generated "
              "panic-heavy programs; all variables are traced after each catch; distinct by nesting or event log")
    c.map(case, [("c10/%d/%d/%d" % (c.seed, k, i), k) for i in range(c.n(120, 2000)) for k in range(len(KINDS))], cap=c.cap(120, 1200), chunk=4)
    if c.viol: return
    c.map(messages, ["msg/%d/%d" % (c.seed, i) for i in range(c.n(40, 400))])
    if c.viol: return
    c.map(flow.nest_case, flow.plans(c, ["try", "panic"], extra=c.n(2500, 40000)), cap=c.cap(120, 1500))
    if c.viol: return
    c.map(diff.case_batch, diff.programs(c, ["panic", "panic", "mix"], c.n(4000, 60000)), cap=c.cap(120, 1500))
    if c.viol: return
    c.exhaust("unbounded-recursion", b'let f = nil\nf = function (n) 1 + f(n + 1) end\nstd.println(std.type(std.catch(function () f(0) end)))\n', [(0, b"error\n")])
