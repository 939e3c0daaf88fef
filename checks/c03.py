"""C03: lexical scoping, closures and calls."""
import random
from engine import diff, gen, common
from engine.lang import *


def perm_call(rng):
    """Functions with n parameters, called positionally; every parameter traced, some captured."""
    b = []
    for n in [0, 1, 2, 3, 4, 7, 12, 40, rng.choice([100, 255, 256, 257, 300])]:
        ps = ["p%d" % i for i in range(n)]
        nlocals = rng.choice([0, 1, 5, 30])
        body = [let("l%d" % i, bin_("+", lit(i), var(ps[i % n]) if n else lit(0))) for i in range(nlocals)]
        cap = rng.sample(range(n), min(n, rng.randint(0, 5)))
        if cap:
            body.append(let("cl", fn([], [es(N("arr", [var(ps[i]) for i in cap]))])))
            if rng.random() < 0.5: body.append(assign(var(ps[cap[0]]), lit(-5)))
            body.append(trace("cap", call(var("cl"))))
        show = list(range(n)) if n <= 12 else rng.sample(range(n), 12)
        body.append(trace("par", N("arr", [var(ps[i]) for i in show])))
        if nlocals: body.append(trace("loc", N("arr", [var("l%d" % i) for i in range(nlocals)])))
        f = "f%d" % n
        b.append(N("fundef", f, fn(ps, body + [es(lit(n))])))
        b.append(trace("r", call(var(f), *[lit(100 + i) for i in range(n)])))
        for m in {max(0, n - 1), n + 1, 0, n + 3}:
            if m != n: b.append(trace("ar", scall("catch", fn([], [es(call(var(f), *[lit(i) for i in range(m)]))]))))
        # callee evaluated, args of the wrong count are evaluated first
        b.append(trace("r2", N("arr", [lit(1), call(var(f), *[call(var("V"), lit(b"a"), lit(i)) if n < 8 else lit(i) for i in range(n)]), lit(2)])))
    return b


def many_locals(rng):
    n = rng.choice([50, 300, 1200])
    b = [let("g%d" % i, lit(i * 3)) for i in range(n)]
    inner = []
    pick = rng.sample(range(n), 20)
    inner += [let("h%d" % i, bin_("+", var("g%d" % i), lit(1))) for i in pick]
    inner += [assign(var("g%d" % pick[0]), lit(-1)), trace("h", N("arr", [var("h%d" % i) for i in pick]))]
    inner += [es(fn([], [es(N("arr", [var("h%d" % i) for i in pick] + [var("g%d" % pick[0]), var("g%d" % (n - 1))]))]))]
    b.append(let("mk", fn([], inner)))
    b.append(trace("m", call(call(var("mk")))))
    b.append(assign(var("g%d" % (n - 1)), lit(7777)))
    b.append(let("k1", call(var("mk")))); b.append(let("k2", call(var("mk"))))
    b.append(trace("m", N("arr", [call(var("k1")), call(var("k2")), var("g%d" % pick[0]), var("g%d" % pick[1]), var("g0")])))
    return b


def nest_capture(rng):
    """Deep function nesting; each level declares, reads and writes variables of other levels."""
    depth = rng.choice([2, 3, 4, 6, 10, 25, 60])
    def level(d):
        body = [let("v%d" % d, lit(d * 10))]
        if rng.random() < 0.5: body.append(let("w%d" % d, bin_("+", var("v%d" % d), lit(1))))
        if rng.random() < 0.3 and d > 0: body.append(let("v%d" % rng.randrange(d), lit(d * 1000)))   # shadow
        up = [rng.randrange(d + 1) for _ in range(3)]
        body.append(trace("n%d" % d, N("arr", [var("v%d" % u) for u in up])))
        if rng.random() < 0.6: body.append(assign(var("v%d" % rng.choice(up)), bin_("+", var("v%d" % rng.choice(up)), lit(1))))
        if d < depth:
            f = fn([], level(d + 1))
            k = rng.random()
            if k < 0.4: body += [let("f%d" % d, f), es(call(var("f%d" % d))), trace("a%d" % d, var("v%d" % d)), es(call(var("f%d" % d)))] if d < 6 else [let("f%d" % d, f), es(call(var("f%d" % d)))]
            elif k < 0.7: body.append(es(call(N("paren", f))))
            else: body += [es(if_(lit(True), [let("blk%d" % d, f), es(call(var("blk%d" % d)))]))]
        body.append(trace("z%d" % d, var("v%d" % d)))
        return body
    return level(0)


def counters(rng):
    """Closures made repeatedly: each set shares its own variables."""
    mk = fn(["init"], [let("c", var("init")), let("log", N("arr", [])),
                       es(N("dict", [("inc", fn(["k"], [assign(var("c"), bin_("+", var("c"), var("k"))), es(scall("push", var("log"), var("k"))), es(var("c"))])),
                                     ("get", fn([], [es(var("c"))])),
                                     ("reset", fn([], [assign(var("c"), var("init"))])),
                                     ("reinit", fn(["x"], [assign(var("init"), var("x"))])),
                                     ("log", fn([], [es(var("log"))])),
                                     ("sub", fn([], [es(fn([], [assign(var("c"), bin_("-", var("c"), lit(1))), es(N("arr", [var("c"), var("init")]))]))]))]))])
    b = [let("mk", mk)]
    n = rng.randint(2, 5)
    for i in range(n): b.append(let("o%d" % i, call(var("mk"), lit(i * 100))))
    for j in range(rng.randint(20, 60)):
        o = var("o%d" % rng.randrange(n))
        k = rng.random()
        if k < 0.4: b.append(trace("i", call(dot(o, "inc"), lit(rng.randint(-9, 9)))))
        elif k < 0.5: b.append(es(call(dot(o, "reset"))))
        elif k < 0.6: b.append(es(call(dot(o, "reinit"), lit(rng.randint(0, 99)))))
        elif k < 0.75: b.append(trace("s", call(call(dot(o, "sub")))))
        elif k < 0.85: b.append(trace("g", N("arr", [call(dot(var("o%d" % i), "get")) for i in range(n)])))
        else: b.append(trace("l", call(dot(o, "log"))))
    return b


def loops_capture(rng):
    """Closures created in loops, with blocks and inner declarations."""
    b = [let("fs", N("arr", [])), let("acc", lit(0))]
    body = [let("x", bin_("*", var("i"), lit(2))),
            es(scall("push", var("fs"), fn(["d"], [assign(var("acc"), bin_("+", var("acc"), var("d"))), es(N("arr", [var("i"), var("x"), var("acc")]))])))]
    if rng.random() < 0.5: body.append(assign(var("x"), bin_("+", var("x"), lit(1))))
    mk = [for_("i", scall("range", lit(0), lit(rng.randint(1, 5)), lit(1)), body)]
    if rng.random() < 0.5: b += [let("run", fn([], mk)), es(call(var("run"))), es(call(var("run")))]
    else: b += mk
    b.append(for_("f", scall("iter", var("fs")), [trace("c", call(var("f"), lit(1)))]))
    b.append(trace("acc", var("acc")))
    # factory in a loop: fresh variable for each call
    b += [let("gs", N("arr", [])), let("make", fn(["v"], [let("own", var("v")), es(fn([], [assign(var("own"), bin_("+", var("own"), lit(1))), es(var("own"))]))])),
          for_("i", scall("range", lit(0), lit(4), lit(1)), [es(scall("push", var("gs"), call(var("make"), bin_("*", var("i"), lit(10)))))])]
    for i in range(8): b.append(trace("g", call(idx(var("gs"), lit(rng.randrange(4))))))
    return b


def selfs(rng):
    b = []
    who = fn([], [es(N("self"))])
    b.append(let("o", N("dict", [("who", who), ("tag", lit(1)), ("inner", N("dict", [("tag", lit(2)), ("who", who)])), ("list", N("arr", [who]))])))
    tag = lambda e: scall("catch", fn([], [es(dot(e, "tag"))]))
    b += [trace("a", tag(call(dot(var("o"), "who")))), trace("b", tag(call(dot(dot(var("o"), "inner"), "who")))),
          trace("c", tag(call(idx(var("o"), lit(b"who"))))), trace("d", scall("type", call(idx(dot(var("o"), "list"), lit(0))))),
          let("w", dot(var("o"), "who")), trace("e", call(var("w"))), trace("f", scall("type", call(N("paren", dot(var("o"), "who"))))),
          let("bd", scall("bind", N("dict", [("tag", lit(3))]), dot(var("o"), "who"))), trace("g", tag(call(var("bd")))),
          assign(dot(var("o"), "bd"), var("bd")), trace("h", tag(call(dot(var("o"), "bd")))),
          let("o2", N("dict", [("tag", lit(4)), ("who", dot(var("o"), "who"))])), trace("i", tag(call(dot(var("o2"), "who")))), trace("i2", tag(call(dot(var("o"), "who"))))]
    # self inside nested function is that call's own
    m = fn(["x"], [let("me", N("self")), let("f", fn([], [es(scall("type", N("self")))])), es(N("arr", [call(var("f")), dot(var("me"), "tag"), dot(N("self"), "tag"), var("x")]))])
    b += [assign(dot(var("o"), "m"), m), trace("j", call(dot(var("o"), "m"), call(dot(var("o2"), "who")) if False else lit(9)))]
    # calls of other methods between: self unaffected
    m2 = fn(["o2"], [let("t1", dot(call(dot(var("o2"), "who")), "tag")), let("r", scall("catch", fn([], [es(scall("panic", lit(1)))]))), es(N("arr", [var("t1"), dot(N("self"), "tag")]))])
    b += [assign(dot(var("o"), "m2"), m2), trace("k", call(dot(var("o"), "m2"), var("o2")))]
    # method that mutates and recurses
    cnt = fn(["n"], [assign(dot(N("self"), "tag"), bin_("+", dot(N("self"), "tag"), lit(1))),
                     es(if_(bin_(">", var("n"), lit(0)), [es(call(dot(N("self"), "cnt"), bin_("-", var("n"), lit(1))))], [es(dot(N("self"), "tag"))]))])
    b += [assign(dot(var("o"), "cnt"), cnt), trace("l", call(dot(var("o"), "cnt"), lit(rng.randint(0, 30)))), trace("m", dot(var("o"), "tag"))]
    # self from index access with computed key / object evaluated once
    b += [trace("n", tag(call(idx(call(var("V"), lit(b"ob"), var("o2")), call(var("V"), lit(b"key"), lit(b"who"))))))] if False else []
    # parameters and captured mix with self, all in one function
    b += [let("cap", lit(50)), assign(dot(var("o2"), "mix"), fn(["a", "b"], [let("l", bin_("+", var("a"), var("b"))),
          let("cl", fn(["z"], [assign(var("l"), bin_("+", var("l"), var("z"))), assign(var("cap"), bin_("+", var("cap"), lit(1))), es(var("l"))])),
          es(call(var("cl"), lit(5))), es(N("arr", [var("l"), var("a"), var("b"), dot(N("self"), "tag"), var("cap")]))]))]
    for _ in range(3): b.append(trace("o", call(dot(var("o2"), "mix"), lit(rng.randint(0, 9)), lit(rng.randint(0, 9)))))
    # self is the object whatever its type: an error, an array, a bound value of any type
    ty = fn([], [es(N("arr", [scall("type", N("self")), N("self")]))])
    b += [let("ty", ty), let("er", scall("error", lit(b"boom"), fn([], [es(N("arr", [scall("type", N("self")), dot(N("self"), "description")]))]))),
          trace("p", call(dot(var("er"), "context"))), trace("p2", call(idx(var("er"), lit(b"context")))),
          let("li", N("arr", [lit(1), fn(["i"], [es(idx(N("self"), var("i")))])])), trace("q", call(idx(var("li"), lit(1)), lit(0)))]
    for v in [lit(None), lit(7), lit(2.5), lit(Byte(65)), lit(b"str"), lit(True), N("arr", [lit(1)]), N("dict", [("tag", lit(8))]), scall("error", lit(b"be"), lit(1))]:
        b += [assign(var("bd"), scall("bind", v, var("ty"))), trace("r", call(var("bd"))), trace("s", call(idx(N("arr", [var("bd")]), lit(0)))),
              trace("t", call(dot(N("dict", [("f", var("bd")), ("tag", lit(9))]), "f"))), trace("u", call(scall("bind", N("dict", [("tag", lit(10))]), var("bd"))))]
    # calls that are not accesses have no self
    b += [assign(dot(var("o2"), "get"), fn([], [es(var("ty"))])), trace("v", call(call(dot(var("o2"), "get")))), trace("w", call(N("paren", if_(lit(True), [es(dot(var("o2"), "get"))], [es(var("ty"))])))) if False else trace("w", call(var("ty"))),
          trace("x", scall("catch", var("ty"))), trace("x2", scall("catch", scall("bind", N("arr", [lit(5)]), var("ty")))), let("sawself", lit(0)),
          for_("i", fn([], [assign(var("sawself"), scall("type", N("self"))), es(N("dict", [("finished", lit(True))]))]), []), trace("y", var("sawself"))]
    return b


def deep(rng):
    """Deep recursion with locals that must survive, returns and panics from the bottom."""
    n = rng.choice([50, 200, 700])
    b = [let("seen", lit(0)),
         N("fundef", "down", fn(["n", "mode"], [
             let("mine", bin_("*", var("n"), lit(3))),
             let("cl", fn([], [assign(var("mine"), bin_("+", var("mine"), lit(1))), es(var("mine"))])),
             es(if_(bin_("==", var("n"), lit(0)), [
                 es(if_(bin_("==", var("mode"), lit(1)), [es(scall("panic", lit(b"bottom")))])),
                 ret(lit(0))])),
             let("sub", call(var("down"), bin_("-", var("n"), lit(1)), var("mode"))),
             es(call(var("cl"))),
             es(if_(bin_("!=", var("mine"), bin_("+", bin_("*", var("n"), lit(3)), lit(1))), [trace("BAD", var("mine"))])),
             assign(var("seen"), bin_("+", var("seen"), lit(1))),
             es(bin_("+", var("sub"), var("mine")))])),
         let("keep", N("arr", [lit(1), lit(2)]))]
    b += [trace("a", call(var("down"), lit(n), lit(0))), trace("b", scall("catch", fn([], [es(call(var("down"), lit(n), lit(1)))]))),
          trace("c", N("arr", [var("seen"), var("keep")])), trace("d", call(var("down"), lit(n // 2), lit(0)))]
    # mutual recursion through captured variables
    b += [let("odd"+"", lit(None)), let("even", fn(["n"], [es(if_(bin_("==", var("n"), lit(0)), [es(lit(True))], [es(call(var("odd"), bin_("-", var("n"), lit(1))))]))])),
          assign(var("odd"), fn(["n"], [es(if_(bin_("==", var("n"), lit(0)), [es(lit(False))], [es(call(var("even"), bin_("-", var("n"), lit(1))))]))])),
          trace("e", N("arr", [call(var("even"), lit(n)), call(var("even"), lit(n + 1)), call(var("odd"), lit(7))]))]
    return b


def shadows(rng):
    """Shadowing across blocks, loops, parameters, functions; reads after each scope ends."""
    names = ["a", "b", "c"]
    cnt = [0]
    def fresh(): cnt[0] += 1; return lit(cnt[0])
    def block(d, declared, infn):
        out = []
        here = set(declared)
        for _ in range(rng.randint(2, 5)):
            k = rng.random()
            if k < 0.25:
                n = rng.choice(names)
                if n not in here: here.add(n); out.append(let(n, fresh()))
            elif k < 0.4: out.append(assign(var(rng.choice(names)), fresh()))
            elif k < 0.6: out.append(trace("t", N("arr", [var(n) for n in names])))
            elif d < 5:
                if k < 0.7: out.append(es(if_(lit(True), block(d + 1, set(), infn))))
                elif k < 0.78:
                    n = rng.choice(names)
                    out.append(for_(n, scall("range", fresh(), bin_("+", fresh(), lit(1)), lit(1)), block(d + 1, {n}, infn)[:4] + [brk()]))
                elif k < 0.9:
                    ps = rng.sample(names, rng.randint(0, 3))
                    out.append(es(call(N("paren", fn(ps, block(d + 1, set(ps), True))), *[fresh() for _ in ps])))
                else:
                    ps = rng.sample(names, rng.randint(0, 2))
                    f = "f%d" % rng.randint(0, 10 ** 9)
                    out += [let(f, fn(ps, block(d + 1, set(ps), True))), es(call(var(f), *[fresh() for _ in ps])), trace("u", N("arr", [var(n) for n in names])), es(call(var(f), *[fresh() for _ in ps]))]
        out.append(trace("t", N("arr", [var(n) for n in names])))
        return out
    return [let(n, fresh()) for n in names] + block(0, set(names), False)


def sharing(rng):
    """One variable, any value (nil included), many closures created at different times, in different
    places and at different depths: all of them and the declaring scope see every write."""
    pool = [lit(None), lit(None), lit(False), lit(True), lit(0), lit(-1), lit(b""), lit(b"s"), lit(0.5), lit(Byte(0)), N("arr", []), N("dict", [])]
    nv = rng.randint(1, 4)
    vs = ["v%d" % i for i in range(nv)]
    par = set(rng.sample(vs, rng.randint(0, nv))) if rng.random() < 0.5 else set()
    body = [let(v, rng.choice(pool)) for v in vs if v not in par]
    names = []
    cnt = [0]
    def fresh(p): cnt[0] += 1; return "%s%d" % (p, cnt[0])
    def getter(v, d=0):
        k = rng.random()
        if d < 3 and k < 0.3: return fn([], [es(call(N("paren", getter(v, d + 1))))])
        if d < 3 and k < 0.4: return fn([], [let("tmp", lit(1)), es(if_(lit(True), [es(var(v))]))])
        return fn([], [es(var(v))])
    def setter(v, d=0):
        k = rng.random()
        if d < 3 and k < 0.3: return fn(["x"], [let("pad", lit(2)), es(call(N("paren", setter(v, d + 1)), var("x")))])
        return fn(["x"], [assign(var(v), var("x")), es(var(v))])
    def both(v): return fn([], [es(N("dict", [("g", getter(v, 2)), ("s", setter(v, 2))]))])
    gs, ss = [], []
    def step(b, d):
        v = rng.choice(vs); k = rng.random()
        if k < 0.15: n = fresh("g"); b.append(let(n, getter(v))); gs.append((n, v)) if d == 0 else b.append(trace("gi", call(var(n))))
        elif k < 0.3: n = fresh("s"); b.append(let(n, setter(v))); ss.append((n, v)) if d == 0 else b.append(trace("si", call(var(n), rng.choice(pool))))
        elif k < 0.38: n = fresh("d"); b += [let(n, call(N("paren", both(v)))), trace("ds", call(dot(var(n), "s"), rng.choice(pool))), trace("dg", call(dot(var(n), "g")))]
        elif k < 0.5: b.append(assign(var(v), rng.choice(pool)))
        elif k < 0.65 and ss: n, v = rng.choice(ss); b.append(trace("S", call(var(n), rng.choice(pool))))
        elif k < 0.72 and d < 2:
            inner = []
            for _ in range(rng.randint(1, 4)): step(inner, d + 1)
            b.append(rng.choice([lambda: es(if_(lit(True), inner)), lambda: es(call(N("paren", fn([], inner)))), lambda: for_(fresh("i"), scall("range", lit(0), lit(2), lit(1)), inner)])())
        b.append(trace("all", N("arr", [var(v) for v in vs] + [call(var(n)) for n, _ in gs])))
    for _ in range(rng.randint(5, 25)): step(body, 0)
    body.append(trace("last", N("arr", [var(v) for v in vs] + [call(var(n)) for n, _ in gs])))
    if not par and rng.random() < 0.4: return body
    ps = sorted(par)
    body.append(es(N("arr", [var(n) for n, _ in gs[:5]])))
    b = [let("mk", fn(ps, body))]
    for i in range(rng.randint(1, 3)): b.append(let("got%d" % i, call(var("mk"), *[rng.choice(pool) for _ in ps])))
    for i in range(len(gs[:5])): b.append(trace("kept", call(idx(var("got0"), lit(i)))))
    return b


def many_captures(rng):
    """One function capturing very many variables of its own frame, of outer frames and of the top level."""
    n = rng.choice([17, 33, 65, 70, 129, 200, 257, 400, 600])
    top = [let("t%d" % i, lit(i)) for i in range(n)]
    names = ["t%d" % i for i in range(n)]
    loc = ["l%d" % i for i in range(rng.choice([0, 3, 40, n]))]
    pars = ["p%d" % i for i in range(rng.choice([0, 1, 5]))]
    allv = names + loc + pars
    rng.shuffle(allv)
    use = allv if rng.random() < 0.7 else allv[:rng.randint(1, len(allv))]
    def total(vs):
        e = var(vs[0])
        chunks = [vs[i:i + 10] for i in range(0, len(vs), 10)]
        return [let("s", lit(0))] + [assign(var("s"), bin_("+", var("s"), _sum(ch))) for ch in chunks]
    def _sum(vs):
        e = var(vs[0])
        for v in vs[1:]: e = bin_("+", e, var(v))
        return e
    w = rng.sample(use, min(len(use), 6))
    reader = fn([], total(use) + [es(N("arr", [var("s")] + [var(v) for v in w]))])
    writer = fn(["x"], total(use) + [assign(var(v), bin_("+", var(v), var("x"))) for v in w] + [es(var("s"))])
    for _ in range(rng.choice([0, 0, 1, 3])): reader = fn([], [es(call(N("paren", reader)))])
    body = [let(v, lit(1000 + i)) for i, v in enumerate(loc)] + [es(N("dict", [("r", reader), ("w", writer)]))]
    out = top + [let("mk", fn(pars, body))]
    for k in range(2): out.append(let("o%d" % k, call(var("mk"), *[lit(7 + i) for i in range(len(pars))])))
    for k in (0, 1, 0): out += [trace("r", call(dot(var("o%d" % k), "r"))), trace("w", call(dot(var("o%d" % k), "w"), lit(5))), trace("r", call(dot(var("o%d" % (1 - k)), "r")))]
    out += [assign(var(names[-1]), lit(-3)), trace("r", call(dot(var("o0"), "r")))]
    return out


KINDS = [many_captures, sharing, sharing, perm_call, many_locals, nest_capture, counters, loops_capture, selfs, deep, shadows]


def case(item):
    seed, k = item
    rng = random.Random(seed)
    b = KINDS[k](rng)
    try:
        return with_budget(b, seed)
    except Budget:
        return {"ok": True, "evals": 0, "stats": {"discarded": 1}}


def with_budget(b, seed):
    old = gen.expect
    def big(block, budget=3000000): return old(block, budget)
    gen.expect = big
    try:
        r = diff.check_block(clone(b), seed, "pretty")
    finally: gen.expect = old
    r["stats"]["crafted"] = 1
    return r


def run(c):
    c.rule = ("crafted families (parameter counts to 300, 1200 locals, 600 captures, 60 nested functions, counters, loop captures, self, recursion to 700 frames with "
              "panics, shadowing) with random choices, plus generated programs; non-trivial: more than 3 trace records, distinct by event log")
    items = [("c03/%d/%d/%d" % (c.seed, k, i), k) for i in range(c.n(70, 1200)) for k in range(len(KINDS))]
    c.map(case, items, cap=c.cap(150, 1500), chunk=4)
    if c.viol: return
    c.map(diff.case_batch, diff.programs(c, ["scope", "scope", "mix"], c.n(6000, 80000)), cap=c.cap(150, 1500))
