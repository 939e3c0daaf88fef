"""C07: collections against plain lists and maps."""
import random
from engine import common, diff, gen, printer, vals
from engine.lang import *
from . import c03, c04, c08
from .c12 import confirm

DRAIN = fn(["it", "max"], [let("out", N("arr", [])), let("n", lit(0)), let("go", lit(True)),
    while_(bin_("and", var("go"), bin_("<", var("n"), var("max"))), [
        let("x", call(var("it"))), assign(var("n"), bin_("+", var("n"), lit(1))),
        es(if_(dot(var("x"), "finished"), [assign(var("go"), lit(False)), es(if_(bin_("!=", scall("len", var("x")), lit(1)), [es(scall("push", var("out"), lit(b"BAD")))]))],
               [es(scall("push", var("out"), dot(var("x"), "value")))]))]),
    es(var("out"))])


def C(e): return scall("catch", fn([], [es(e)]))
def CS(*s): return scall("catch", fn([], list(s)))


def keyval(rng, v):
    return vals.build(v, None)


def arrays(rng):
    b = [let("drain", DRAIN)]
    n = rng.randint(1, 3)
    names = ["a%d" % i for i in range(n)]
    for x in names: b.append(let(x, vals.build(Arr([vals.data(rng, 2) for _ in range(rng.choice([0, 1, 3, 8]))]))))
    b.append(let("al", var(names[0]))); names.append("al")
    b.append(let("box", N("dict", [("arr", var(rng.choice(names)))])))
    its = []
    ln = 12
    for j in range(rng.choice([15, 40, 80])):
        a = var(rng.choice(names))
        k = rng.random()
        i = lit(rng.choice([0, 0, 1, 2, 3, 5, 8, 9, -1, 100, I64_MAX, I64_MIN, 1 << 32]))
        if rng.random() < 0.4: i = bin_("-", scall("len", clone(a)), lit(rng.choice([0, 1, 1, 2])))
        v = vals.build(vals.data(rng, 2))
        if k < 0.25: b.append(trace("push", C(scall("push", a, v))))
        elif k < 0.38: b.append(trace("pop", C(scall("pop", a))))
        elif k < 0.52: b.append(trace("get", C(idx(a, i))))
        elif k < 0.66: b.append(trace("set", CS(assign(idx(a, i), v))))
        elif k < 0.72: b.append(trace("len", N("arr", [scall("len", a), scall("is_empty", clone(a))])))
        elif k < 0.80: b.append(trace("has", scall("contains", a, v if rng.random() < 0.5 else scall("len", clone(a)))))
        elif k < 0.86: b.append(trace("it", call(var("drain"), scall("iter", a), lit(100))))
        elif k < 0.90:
            it = "it%d" % j
            b.append(let(it, scall("iter", a))); its.append(it)
        elif k < 0.95 and its: b.append(trace("next", call(var(rng.choice(its)))))
        elif k < 0.97: b.append(assign(var(rng.choice(names)), var(rng.choice(names))))
        elif k < 0.985: b.append(trace("badix", C(idx(a, vals.build(rng.choice([1.0, b"0", None, True, Byte(0)]))))))
        else: b.append(trace("box", dot(var("box"), "arr")))
        if rng.random() < 0.25: b.append(trace("all", N("arr", [var(x) for x in names])))
    b.append(trace("all", N("arr", [var(x) for x in names] + [var("box")])))
    return b


def sorts(rng):
    b = [let("drain", DRAIN), let("a", N("arr", []))]
    for _ in range(rng.randint(5, 25)):
        k = rng.random()
        if k < 0.5: b.append(es(scall("push", var("a"), lit(rng.randint(-20, 20)))))
        elif k < 0.6: b.append(trace("pop", C(scall("pop", var("a")))))
        elif k < 0.8: b += [es(scall("sort", var("a"))), trace("s", var("a"))]
        elif k < 0.9: b.append(trace("set", CS(assign(idx(var("a"), lit(rng.randint(0, 5))), lit(rng.randint(-50, 50))))))
        else: b.append(trace("c", scall("contains", var("a"), lit(rng.randint(-20, 20)))))
    b += [es(scall("sort", var("a"))), trace("s", var("a"))]
    return b


def keys(rng):
    out = [b"a", b"b", b"k", b"", b"x y", b"\xff", 1, 1.0, 2, Byte(97), True, None, -0.0, 0.0, 0, Arr([1]), Arr([]), Arr([1, 2]), b"1"]
    d = Dct(); d.set(b"a", 1); out.append(d)
    return out


def dicts(rng):
    b = [let("drain", DRAIN), let("ks", fn(["d"], [let("r", N("arr", [])), for_("e", scall("iter", var("d")), [es(scall("push", var("r"), N("arr", [dot(var("e"), "key"), dot(var("e"), "value")])))]), es(scall("len", var("r")))]))]
    names = ["d0", "d1"]
    b += [let("d0", N("dict", [])), let("d1", N("dict", [("a", lit(1)), ("b", lit(2))])), let("al", var(rng.choice(names)))]
    names.append("al")
    K = keys(rng)
    b.append(let("same", fn(["d"], [let("n", lit(0)), let("c", N("dict", [])), for_("e", scall("iter", var("d")), [
        assign(var("n"), bin_("+", var("n"), lit(1))), assign(idx(var("c"), dot(var("e"), "key")), dot(var("e"), "value"))]),
        es(N("arr", [var("n"), bin_("==", var("c"), var("d")), scall("len", var("c"))]))])))
    for j in range(rng.choice([15, 40, 80])):
        d = var(rng.choice(names)); kk = rng.choice(K); ke = vals.build(kk)
        k = rng.random(); v = vals.build(vals.data(rng, 2))
        if k < 0.35: b.append(trace("set", CS(assign(idx(d, ke), v))))
        elif k < 0.6: b.append(trace("get", C(idx(d, ke))))
        elif k < 0.7: b.append(trace("has", scall("contains", d, ke)))
        elif k < 0.76: b.append(trace("len", N("arr", [scall("len", d), scall("is_empty", clone(d))])))
        elif k < 0.86: b.append(trace("it", call(var("same"), d)))
        elif k < 0.92: b.append(trace("dot", N("arr", [C(dot(d, "a")), C(idx(clone(d), lit(b"b")))])))
        elif k < 0.96: b.append(assign(dot(d, rng.choice(["a", "b", "new"])), v))
        else: b.append(assign(var("al"), var(rng.choice(names))))
        if rng.random() < 0.1: b.append(trace("n", call(var("ks"), var(rng.choice(names)))))
    # complete contents by key, in a fixed order
    for n in names:
        for kk in K: b.append(trace("f", C(idx(var(n), vals.build(kk)))))
    return b


def strings(rng):
    s = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 10, 300])))
    b = [let("drain", DRAIN), let("s", lit(s)), trace("it", call(var("drain"), scall("iter", var("s")), lit(1000))), trace("l", N("arr", [scall("len", var("s")), scall("is_empty", var("s"))]))]
    for _ in range(10): b.append(trace("ix", C(idx(var("s"), lit(rng.choice([0, 1, len(s) - 1, len(s), -1, rng.randint(-5, 310), I64_MIN, I64_MAX]))))))
    for _ in range(5): b.append(trace("c", scall("contains", var("s"), lit(Byte(rng.randrange(256))))))
    b.append(trace("asg", CS(assign(idx(var("s"), lit(0)), lit(Byte(65))))))
    b += [let("it", scall("iter", var("s")))] + [trace("nx", call(var("it"))) for _ in range(min(len(s), 8) + 2)]
    return b


EDGE = [0, 1, -1, 5, I64_MAX, I64_MAX - 1, I64_MAX - 7, I64_MIN, I64_MIN + 1, I64_MIN + 7, 1 << 62, -(1 << 62), 1 << 32]
STEPS = [1, 2, 3, 7, -1, -2, -3, I64_MAX, I64_MIN, 1 << 62, -(1 << 62), 1 << 32, 10]
FE = [0.0, -0.0, 1.0, 0.1, 0.5, -1.0, 2.5, 1e300, -1e300, math.inf, -math.inf, 1e16, 3.0]


def ranges(rng):
    b = [let("drain", DRAIN)]
    for _ in range(25):
        if rng.random() < 0.7:
            a, e, s = rng.choice(EDGE), rng.choice(EDGE), rng.choice(STEPS)
            if rng.random() < 0.4: a, e, s = rng.randint(-10, 10), rng.randint(-10, 10), rng.choice([1, 2, 3, -1, -2, -5, 20])
            if rng.random() < 0.2: e = min(I64_MAX, max(I64_MIN, a + s * rng.randint(0, 5) + rng.randint(-1, 1)))
            args = [a, e, s]
        else:
            args = [rng.choice(FE), rng.choice(FE), rng.choice([0.1, 0.5, 1.0, -0.5, -1.0, 1e299, 0.3])]
            if rng.random() < 0.4: i = rng.randrange(3); args[i] = rng.choice([0, 1, 5, -3, 2]) or 1
        b.append(trace("r", call(var("drain"), scall("range", *[lit(x) for x in args]), lit(30))))
    # finished stays finished
    b += [let("it", scall("range", lit(0), lit(2), lit(1)))] + [trace("nx", call(var("it"))) for _ in range(5)]
    b += [let("it2", scall("range", lit(I64_MAX - 2), lit(I64_MAX), lit(2)))] + [trace("nx", call(var("it2"))) for _ in range(4)]
    b += [let("i1", scall("iter", N("arr", [lit(1)]))), let("i2", scall("iter", N("arr", [lit(1), lit(2)])))]
    for _ in range(8): b.append(trace("nx", call(var(rng.choice(["i1", "i2"])))))
    b += [trace("bad", C(scall("range", lit(b"a"), lit(1), lit(1)))), trace("bad", C(scall("range", lit(1), lit(1)))), trace("bad", C(call(scall("range", lit(1), lit(2), lit(1)), lit(1))))]
    return b


def big(rng):
    """Many elements: built by the program itself."""
    n = rng.choice([1000, 5000])
    b = [let("a", N("arr", [])), let("d", N("dict", [])),
         for_("i", scall("range", lit(0), lit(n), lit(1)), [es(scall("push", var("a"), bin_("%", bin_("*", var("i"), lit(7919)), lit(n)))), assign(idx(var("d"), bin_("%", bin_("*", var("i"), lit(31)), lit(n))), var("i"))]),
         trace("l", N("arr", [scall("len", var("a")), scall("len", var("d"))])), es(scall("sort", var("a"))),
         let("ok", lit(True)), let("p", lit(-1)), for_("x", scall("iter", var("a")), [es(if_(bin_("<", var("x"), var("p")), [assign(var("ok"), lit(False))])), assign(var("p"), var("x"))]), trace("ok", var("ok")),
         let("sum", lit(0)), for_("e", scall("iter", var("d")), [assign(var("sum"), bin_("+", var("sum"), bin_("+", dot(var("e"), "key"), dot(var("e"), "value"))))]), trace("sum", var("sum")),
         let("c", lit(0)), while_(un("not", scall("is_empty", var("a"))), [assign(var("c"), bin_("+", var("c"), scall("pop", var("a"))))]), trace("c", N("arr", [var("c"), scall("len", var("a"))]))]
    return b


def huge(seed):
    """Collections larger than anything literal, read in full and at random places; the expected values are computed here."""
    r = random.Random(seed)
    src, exp = bytearray(diff.HEAD), bytearray()
    def t(e, v): src.extend(b'T("v", std.catch(function () %s end))\n' % e); exp.extend(b"v " + (v if isinstance(v, bytes) and v[:2] == b"E(" else ser(v).encode()) + b"\n")
    IX = b"E(!index|s70616e6963)"
    kind = r.choice(["string", "array", "dict", "range", "grow"])
    n = int(10 ** r.uniform(3, 5.3 if kind in ("string", "range") else 4.6))
    if r.random() < 0.3: n = (1 << (n.bit_length() - 1)) + r.choice([-1, 0, 1])
    if kind == "string":
        p = bytes(r.choice(b"abcdefgh\x00\xff\xc3\xa9") for _ in range(r.choice([1, 7, 64, 1000, 4096])))
        data = bytearray((p * (n // len(p) + 1))[:n]); pos = sorted(r.sample(range(n), min(n, 4)))
        for i in pos: data[i] = 0x7e
        data = bytes(data); parts, last = [], 0
        src += b"let p = %s\nlet fill = function (n) let s = \"\" while std.len(s) + std.len(p) <= n do s = s ++ p end s end\n" % c08.L(p)
        # doubled until it is long enough: the pattern is periodic
        src += b"let s = p\nwhile std.len(s) < %d do s = s ++ s end\nlet all = s\ns = \"\"\n" % n
        for i in pos: src += b"s = s ++ std.substr(all, %d, %d) ++ \"~\"\n" % (last, i - last); last = i + 1
        src += b"s = s ++ std.substr(all, %d, %d)\n" % (last, n - last)
        t(b"std.len(s)", n)
        src += b"let c = 0 let at = [] let z = 0 for x in std.iter(s) do if x == '~' then std.push(at, c) end if x == 'a' then z = z + c end c = c + 1 end\n"
        t(b"[c, at, z]", Arr([n, Arr(list(pos)), sum(i for i, x in enumerate(data) if x == 97)]))
        for i in [0, n - 1, n, -1, n // 2] + [r.randrange(n) for _ in range(10)]: t(b"s[%d]" % i if i >= 0 else b"s[-1]", Byte(data[i]) if 0 <= i < n else IX)
        t(b"std.contains(s, '~')", True); t(b"std.contains(s, '|')", False)
        src += b"let it = std.iter(s) let k = 0 let e = it() while not e.finished do k = k + 1 e = it() end\n"
        t(b"[k, e.finished, std.len(e), it().finished]", Arr([n, True, 1, True]))
    elif kind == "array":
        m = [(i * 7919) % n for i in range(n)]
        src += b"let a = []\nlet i = 0\nwhile i < %d do std.push(a, (i * 7919) %% %d) i = i + 1 end\n" % (n, n)
        t(b"std.len(a)", n)
        for _ in range(r.randint(5, 20)):
            k = r.random(); i = r.choice([0, len(m) - 1, len(m), r.randrange(len(m) + 1), r.randrange(len(m) + 1)])
            if k < 0.3: t(b"a[%d]" % i, m[i] if i < len(m) else IX)
            elif k < 0.5:
                if i < len(m): m[i] = -i
                t(b"let q = 0 a[%d] = -%d" % (i, i), None if i < len(m) else IX)
            elif k < 0.6:
                q = min(len(m) - 1, r.choice([1, 10, 500]))
                t(b"let q = 0 let j = 0 while j < %d do q = q + std.pop(a) j = j + 1 end [q, std.len(a)]" % q, Arr([sum(m[len(m) - q:]), len(m) - q])); del m[len(m) - q:]
            elif k < 0.7: q = r.choice([1, 100, 3000]); t(b"let j = 0 while j < %d do std.push(a, j) j = j + 1 end" % q, None); m += range(q)
            else:
                t(b"let c = 0 let z = 0 for x in std.iter(a) do z = z + (c % 1000) * x c = c + 1 end [c, z]", Arr([len(m), sum(i % 1000 * x for i, x in enumerate(m))]))
            if r.random() < 0.2: v = r.choice([m[-1], m[0], r.randrange(2 * n), -1, r.choice(m)]); t(b"std.contains(a, %s)" % c08.lit_int(v), v in m)
            if r.random() < 0.1: src += b"std.sort(a)\n"; m.sort()
        t(b"let c = 0 let z = 0 for x in std.iter(a) do z = z + (c % 1000) * x c = c + 1 end [c, z]", Arr([len(m), sum(i % 1000 * x for i, x in enumerate(m))]))
    elif kind == "dict":
        strs = r.random() < 0.5; mul = r.choice([1, 31, 1 << 32, 1 << 48])
        key = (lambda e: b"std.to_string(%s)" % e) if strs else (lambda e: b"(%s) * %d" % (e, mul))
        m = {}
        src += b"let d = @[]\nlet i = 0\nwhile i < %d do d[%s] = i i = i + 1 end\n" % (n, key(b"i %% %d" % max(1, n * 3 // 4)))
        for i in range(n): m[i % max(1, n * 3 // 4)] = i
        t(b"std.len(d)", len(m))
        for _ in range(20):
            i = r.choice([0, len(m) - 1, len(m), r.randrange(n), r.randrange(n)]); k = r.random()
            if k < 0.4: t(b"d[%s]" % key(b"%d" % i), m.get(i, IX))
            elif k < 0.7: t(b"std.contains(d, %s)" % key(b"%d" % i), i in m)
            elif k < 0.9: m[i] = -7; src += b"d[%s] = -7\n" % key(b"%d" % i)
            else: t(b"std.len(d)", len(m))
        src += b"let c = 0 let z = 0 let w = 0 for e in std.iter(d) do c = c + 1 z = z + e.value let k = %s w = w + k %% 1000 * e.value end\n" % (b"std.int(e.key)" if strs else b"e.key / %d" % mul)
        t(b"[c, z, w]", Arr([len(m), sum(m.values()), sum(int(k) % 1000 * v for k, v in m.items())]))
    elif kind == "range":
        st = r.choice([1, 2, 3, 7, -1, -5, 1 << 40]); a = r.choice([0, 5, -n, 1 << 61, -(1 << 62)]); e = a + st * n + (r.randint(0, abs(st) - 1) if st > 0 else 0)
        src += b"let c = 0 let z = 0 let last = nil for x in std.range(%s, %s, %s) do c = c + 1 z = z + (x %% 1000) last = x end\n" % (c08.lit_int(a), c08.lit_int(e), c08.lit_int(st))
        xs = list(range(a, e, st))
        t(b"[c, last]", Arr([len(xs), xs[-1]]))
        t(b"z", sum(abs(x) % 1000 * (1 if x >= 0 else -1) for x in xs))
        f = r.choice([0.5, 0.25, 1.0, -0.5])
        src += b"c = 0 last = nil for x in std.range(0.0, %s, %s) do c = c + 1 last = x end\n" % (repr(f * n).encode() if f > 0 else b"(%s)" % repr(f * n).encode(), repr(f).encode() if f > 0 else b"(%s)" % repr(f).encode())
        t(b"[c, last]", Arr([n, f * (n - 1)]))
    else:
        # the array grows while it is iterated; many iterators at once
        src += b"let a = [1]\nlet c = 0\nfor x in std.iter(a) do c = c + 1 if std.len(a) < %d then std.push(a, x + 1) end end\n" % n
        t(b"[c, a[%d], std.len(a)]" % (n - 1), Arr([n, n, n]))
        k = r.choice([3, 40, 300])
        src += b"let its = []\nlet i = 0\nwhile i < %d do std.push(its, std.iter(a)) i = i + 1 end\nlet z = 0\nlet j = 0\nwhile j < 5 do i = 0 while i < %d do if i %% 3 <= j %% 3 then z = z + i * its[i]().value end i = i + 1 end j = j + 1 end\n" % (k, k)
        at, z = [0] * k, 0
        for j in range(5):
            for i in range(k):
                if i % 3 <= j % 3: at[i] += 1; z += i * at[i]
        t(b"z", z)
    q = common.hush(bytes(src), timeout=120)
    if q.timeout and not q.stuck: return {"ok": True, "inconclusive": "watchdog"}
    got = diff.norm_output(q.out)
    bad = q.status != 0 or got != bytes(exp)
    n_ = exp.count(b"\n")
    d = None
    if bad:
        for g, w in zip(got.split(b"\n"), bytes(exp).split(b"\n")):
            if g != w: d = "%s of size %d: %r instead of %r" % (kind, n, g[:200], w[:200]); break
        d = d or "%s of size %d: status %s, %d of %d results: %r" % (kind, n, q.status, got.count(b"\n"), n_, q.err[-200:])
    return confirm(huge, seed, {"ok": not bad, "evals": n_, "distinct": [bytes(src)], "stats": {"huge_collections": 1, "huge_elements": n, "huge_" + kind: 1}, "desc": d,
            "files": {"program.hsh": bytes(src), "expected.txt": bytes(exp), "got.txt": got, "stderr.txt": q.err}})


KINDS = [arrays, arrays, dicts, dicts, strings, ranges, sorts]


def case(item):
    seed, k = item
    out = []
    for j in range(4 if k >= 0 else 1):
        s = "%s/%d" % (seed, j)
        b = (KINDS[k] if k >= 0 else big)(random.Random(s))
        try: r = c03.with_budget(b, s)
        except Budget: continue
        r.setdefault("evals", 1)
        r["evals"] = r["stats"].get("trace_events", 1)
        r["stats"]["kind_" + (KINDS[k] if k >= 0 else big).__name__] = 1
        out.append(r)
        if not r["ok"]: break
    return c04.merge(out)


def cyclic(seed):
    """Collections that contain themselves: everything that needs no look at all of it works as always."""
    r = random.Random(seed)
    ints = r.sample(range(-50, 50), r.randint(3, 30))
    head = ints.pop()
    items = [head] + [x if r.random() < 0.5 else [x] for x in ints]
    body = b"let a = [%s]\nlet alias = a\n" % b", ".join(b"[%d]" % x[0] if isinstance(x, list) else b"%d" % x for x in items)
    exp = []
    for _ in range(r.choice([1, 1, 2])):
        k = r.randrange(3)
        if k == 0: body += b"std.push(a, a)\n"; items.append("self")
        elif k == 1: j = r.randrange(1, len(items)); body += b"a[%d] = alias\n" % j; items[j] = "self"
        else: body += b"std.push(alias, a)\n"; items.append("self")
    def show():
        nonlocal body
        body += (b"for x in std.iter(a) do if std.type(x) == \"int\" then std.println(x) elseif std.len(x) == 1 then std.println(\"[\" ++ std.to_string(x[0]) ++ \"]\") else std.println(\"self \" ++ std.to_string(std.len(x))) end end\n")
        exp.extend(b"%d" % x if isinstance(x, int) else b"[%d]" % x[0] if isinstance(x, list) else b"self %d" % len(items) for x in items)
    for _ in range(r.randint(1, 6)):
        k = r.randrange(6)
        if k == 0: show()
        elif k == 1 and items.count("self") == 1:
            body += b"std.sort(%s)\n" % r.choice([b"a", b"alias"])
            first = items[0] if isinstance(items[0], int) else None
            if first is None: body = body[:body.rindex(b"std.sort")]; continue     # (comparing an array with itself never ends)
            items.sort(key=lambda x: (0, x) if isinstance(x, int) else (1, x[0] if isinstance(x, list) else first))
            show()
        elif k == 2:
            j = items.index("self"); m = r.randint(1, 5)
            body += b"std.println(std.len(%s))\n" % (b"a" + b"[%d]" % j * m); exp.append(b"%d" % len(items))
        elif k == 3:
            j = items.index("self"); v = r.randrange(100, 200)
            body += b"std.push(a[%d], %d)\nstd.println(alias[%d])\n" % (j, v, len(items)); items.append(v); exp.append(b"%d" % v)
        elif k == 4:
            body += b"let d = @[x: a]\nd[\"me\"] = d\nd[\"me\"][\"me\"][\"n\"] = 5\nstd.println(d.me.me.n + std.len(d) + std.len(d.me.x))\n" if b"let d" not in body else b"std.println(d.n)\n"
            exp.append(b"%d" % (5 + 3 + len(items)) if body.endswith(b"(d.me.x))\n") else b"5")
        elif isinstance(items[-1], int): body += b"std.println(std.pop(a))\n"; exp.append(b"%d" % items.pop())
    body += b"std.println(\"end\")\n"; exp.append(b"end")
    q = common.hush(body)
    if q.timeout and not q.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = None
    if q.out.splitlines() != exp or q.status != 0: bad = "self-containing collections: status %s, printed %r instead of %r: %r" % (q.status, q.out[:600], b"\n".join(exp)[:600], q.err[:300])
    return {"ok": bad is None, "evals": len(exp), "distinct": [body], "desc": bad, "stats": {"self_containing": 1}, "files": {"program.hsh": body, "stderr.txt": q.err}}


def run(c):
    c.rule = ("random operation sequences on aliased arrays, dicts and strings, iterators, and ranges over edge triples; every observed result (one evaluation "
              "each) is compared with a list/map model; distinct by event log")
    c.map(case, [("c07/%d/%d/%d" % (c.seed, k, i), k) for i in range(c.n(70, 1200)) for k in range(len(KINDS))], cap=c.cap(120, 1500))
    if c.viol: return
    c.map(case, [("c07b/%d/%d" % (c.seed, i), -1) for i in range(c.n(8, 60))], cap=c.cap(60, 300))
    if c.viol: return
    c.map(huge, ["c07h/%d/%d" % (c.seed, i) for i in range(c.n(100, 800))], cap=c.cap(100, 600), chunk=1)
    if c.viol: return
    c.map(cyclic, ["c07c/%d/%d" % (c.seed, i) for i in range(c.n(300, 5000))], cap=c.cap(60, 300))
    if c.viol: return
    c.exhaust("self-key", b"let d = @[]\nstd.println(std.type(std.catch(function () d[d] = 1 end)))\n", [(0, b"nil\n"), (0, b"error\n")], crash=(101, b"already mutably borrowed"))
