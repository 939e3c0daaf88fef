"""C06: equality, ordering and dict keys are coherent."""
import functools, random
from engine import common, diff, gen, printer, vals
from engine.lang import *
from engine.vals import build, src as S


def pool(rng, n, nan=0.0, err=True):
    """Values with many near-duplicates."""
    out = []
    while len(out) < n:
        v = vals.data(rng, rng.choice([0, 0, 1, 2]), nan, err)
        out.append(v)
        if rng.random() < 0.4: out.append(v)          # built again, as other objects
        if rng.random() < 0.4: out.append(twist(v, rng))
    rng.shuffle(out)
    return out[:n]


def twist(v, rng):
    """A value that differs slightly, or only in type."""
    t = tname(v)
    if t == "int": return rng.choice([float(v) if abs(v) < 2 ** 60 else v // 2, v + 1 if v < I64_MAX else v - 1, str(v).encode(), Byte(v & 255)])
    if t == "float": return rng.choice([-v, v * 2, int(v) if abs(v) < 1e15 and v == v else 1])
    if t == "string": return rng.choice([v + b"\x00", v[:-1], v.swapcase(), Byte(v[0]) if v else None, Arr([Byte(c) for c in v[:20]])])
    if t == "char": return rng.choice([v.v, bytes([v.v]), Byte(v.v ^ 1), float(v.v)])
    if t == "nil": return rng.choice([False, b"", 0, Arr([]), Dct()])
    if t == "bool": return rng.choice([not v, 1 if v else 0, b"true" if v else b"false"])
    if t == "array":
        a = list(v.a); k = rng.random()
        if k < 0.2: return Arr(a + [None])
        if k < 0.4: return Arr(a[:-1])
        if k < 0.55: return Arr(a[::-1])
        if k < 0.7: return Arr([v])
        if a: i = rng.randrange(len(a)); a[i] = twist(a[i], rng)
        return Arr(a)
    if t == "dict":
        d = Dct(); its = list(v.d.values())
        if its and rng.random() < 0.7:
            i = rng.randrange(len(its)); k, x = its[i]
            its[i] = (twist(k, rng), x) if rng.random() < 0.4 else (k, twist(x, rng))
        elif its: its.pop()
        else: its = [(None, None)]
        for k, x in its: d.set(k, x)
        return d
    if t == "error": return rng.choice([Err(v.desc + b"x", v.ctx), Err(v.desc, twist(v.ctx, rng)), v.ctx, v.desc])
    return v


def decl(rng, name, vs):
    out = b"let %s = []\n" % name
    for v in vs: out += b"std.push(%s, " % name + S(build(v, rng)) + b")\n"
    return out


def ok(v, src, exp, got, r, n, stats, key):
    res = {"ok": True, "evals": n, "stats": stats, "distinct": [key]}
    if exp != got or r.status != 0:
        res.update(ok=False, desc="%s: %s; status %s %s" % (v, diff.first_diff(exp, got), r.status, r.err.decode("utf-8", "replace")[:600]),
                   files={"program.hsh": src, "expected.txt": exp, "observed.txt": got, "stderr.txt": r.err})
    return res


def eq_case(seed):
    rng = random.Random(seed)
    vs = pool(rng, 34, nan=0.05)
    src = diff.HEAD + decl(rng, b"vs", vs) + decl(rng, b"ws", vs) + b"""
for a in std.iter(vs) do
  for b in std.iter(ws) do std.print(if a == b then if a != b then "X" else "=" end else if a != b then "." else "X" end end) end
  std.println()
end
for a in std.iter(vs) do
  for b in std.iter(vs) do std.print(if a == b then if a != b then "X" else "=" end else if a != b then "." else "X" end end) end
  std.println()
end
for a in std.iter(vs) do std.print(if std.contains(ws, a) then "y" else "n" end) end
std.println()
"""
    exp = b"".join(b"".join(b"=" if equal(a, b) else b"." for b in vs) + b"\n" for a in vs) * 2          # against rebuilt values, and against the very same ones
    exp += b"".join(b"y" if any(equal(a, b) for b in vs) else b"n" for a in vs) + b"\n"
    r = common.hush(src)
    if r.timeout and not r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    return ok("equality", src, exp, r.out, r, 2 * len(vs) ** 2, {"pairs_compared": 2 * len(vs) ** 2, "equal_pairs": exp.count(b"=")}, exp + repr([ser(v) for v in vs]).encode())


def key_case(seed):
    rng = random.Random(seed)
    vs = pool(rng, 60)
    m = {}
    exp = bytearray()
    src = bytearray(diff.HEAD + decl(rng, b"vs", vs) + decl(rng, b"ws", vs) + b"let d = @[]\n")
    n = 0
    for _ in range(120):
        i = rng.randrange(len(vs)); v = vs[i]; c = canon(v)
        which = rng.choice([b"vs", b"ws"])
        k = rng.random()
        if k < 0.45:
            x = n if rng.random() < 0.7 else rng.choice([None, False, True, 0, b"", 0.0, Arr([]), Dct()])
            src += b"d[%s[%d]] = %s\n" % (which, i, S(build(x))); m[c] = x
        elif k < 0.7:
            src += b'T("g", std.catch(function () d[%s[%d]] end))\n' % (which, i)
            exp += b"g " + (ser(m[c]).encode() if c in m else b"E(!index|s70616e6963)") + b"\n"
        elif k < 0.85:
            src += b'T("c", std.contains(d, %s[%d]))\n' % (which, i); exp += b"c " + (b"t" if c in m else b"f") + b"\n"
        else:
            src += b'T("l", std.len(d))\n'; exp += b"l i%d\n" % len(m)
        n += 1
    src += b'for e in std.iter(d) do T("e", d[e.key] == e.value) end\nT("l", std.len(d))\n'
    exp += b"e t\n" * len(m) + b"l i%d\n" % len(m)
    r = common.hush(bytes(src))
    if r.timeout and not r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    return ok("dict keys", bytes(src), bytes(exp), norm_output(r.out), r, n, {"key_operations": n, "distinct_keys": len(m)}, bytes(exp) + repr([ser(v) for v in vs]).encode())


def has_dict(v):
    t = tname(v)
    if t in ("dict", "error"): return True
    return t == "array" and any(has_dict(x) for x in v.a)


def z(v):
    """-0.0 and 0.0 are equal, so their order is free."""
    t = tname(v)
    if t == "float": return 0.0 if v == 0 else v
    if t == "array": return Arr([z(x) for x in v.a])
    if t == "error": return Err(v.desc, z(v.ctx))
    if t == "dict":
        d = Dct()
        for k, x in v.d.values(): d.set(z(k), z(x))
        return d
    return v


def sort_case(seed):
    rng = random.Random(seed)
    kind = rng.choice(["mixed", "scalar", "ints", "strings", "floats", "arrays", "all", "all", "big"])
    n = rng.choice([0, 1, 2, 3, 5, 10, 19, 20, 21, 40])
    if kind == "mixed": vs = [z(v) for v in pool(rng, n, err=False) if not has_dict(v)]
    elif kind == "scalar": vs = [z(vals.scalar(rng)) for _ in range(n)]
    elif kind == "ints": vs = [rng.choice(vals.INTS) if rng.random() < 0.5 else rng.randint(-10, 10) for _ in range(n)]
    elif kind == "strings": vs = [bytes(rng.choice(b"ab\x00\xff") for _ in range(rng.randrange(5))) for _ in range(n)]
    elif kind == "floats": vs = [z(rng.choice(vals.FLOATS)) for _ in range(n)]
    elif kind == "arrays": vs = [Arr([rng.randrange(3) for _ in range(rng.randrange(4))]) for _ in range(n)]
    elif kind == "big": vs = [rng.randint(-1000, 1000) for _ in range(rng.choice([100, 400, 1000]))]
    else: vs = [z(v) for v in pool(rng, min(n, 15))]
    perm = list(vs); rng.shuffle(perm)
    src = diff.HEAD + decl(rng, b"a", vs) + decl(rng, b"b", perm) + b"""
let al = a
std.sort(a) std.sort(b)
T("a", a) T("b", b) T("same", a == al) T("agree", a == b)
std.sort(a)
T("again", a)
let okc = true
for i in std.range(1, std.len(a), 1) do
  let x = a[i - 1]
  let y = a[i]
  let t = std.type(x)
  if t == std.type(y) and (t == "int" or t == "float" or t == "string" or t == "char") then
    if not (x <= y) or y < x or not (y >= x) then okc = false end
  end
end
T("ops", okc)
"""
    r = common.hush(src)
    if r.timeout and not r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    exact = not any(has_dict(v) for v in vs)
    bad = None
    rec = {}
    try:
        for line in norm_output(r.out).split(b"\n"):
            if line: t, x = line.split(b" ", 1); rec[t] = x
        if r.status != 0: bad = "status %s %r" % (r.status, r.err[:500])
        elif set(rec) != {b"a", b"b", b"same", b"agree", b"again", b"ops"}: bad = "records missing: %r" % sorted(rec)
        else:
            got = [vals.ident(x) for x in vals.parse(rec[b"a"]).a]
            if sorted(got) != sorted(vals.ident(v) for v in vs): bad = "sort does not keep exactly its elements"
            elif exact and got != [vals.ident(v) for v in sorted(vs, key=functools.cmp_to_key(cmp_val))]:
                bad = "sorted order differs from the value order"
            elif vals.ident(vals.parse(rec[b"b"])) != vals.ident(vals.parse(rec[b"a"])) or rec[b"agree"] != b"t": bad = "the order depends on the order of the input"
            elif vals.ident(vals.parse(rec[b"again"])) != vals.ident(vals.parse(rec[b"a"])): bad = "sorting a sorted array changes it"
            elif rec[b"ops"] != b"t": bad = "sort disagrees with the comparison operators"
            elif rec[b"same"] != b"t": bad = "alias differs"
            else:
                tt = [TYPE_ORDER.index(tname(x)) for x in vals.parse(rec[b"a"]).a]
                if tt != sorted(tt): bad = "types are not ordered"
    except ValueError as e: bad = "unreadable output: %s" % e
    res = {"ok": bad is None, "evals": 1, "stats": {"sorted_" + kind: 1, "sorted_elements": len(vs)}, "distinct": [src] if len(vs) > 1 else []}
    if bad: res.update(desc="std.sort of %d values (%s): %s" % (len(vs), kind, bad), files={"program.hsh": src, "observed.txt": r.out, "stderr.txt": r.err})
    return res


def shape(rng, vs):
    """The values in an order that algorithms like to special-case."""
    k = rng.choice(["random", "sorted", "reversed", "tail", "head", "swaps", "runs", "equal", "blocks"])
    n = len(vs)
    key = functools.cmp_to_key(cmp_val)
    if k == "random": return k, vs
    vs = sorted(vs, key=key)
    if k == "reversed": vs = vs[::-1]
    elif k == "tail":
        t = rng.randint(1, min(n, 6)); x = vs[:n - t] + rng.sample(vs, t); vs = x
    elif k == "head": t = rng.randint(1, min(n, 6)); vs = rng.sample(vs, t) + vs[t:]
    elif k == "swaps":
        for _ in range(rng.randint(1, 6)): i, j = rng.randrange(n), rng.randrange(n); vs[i], vs[j] = vs[j], vs[i]
    elif k == "runs": t = rng.randint(2, 6); vs = [x for i in range(t) for x in vs[i::t]]
    elif k == "equal": vs = [rng.choice(vs[:3]) for _ in vs]
    elif k == "blocks": i = rng.randrange(n); vs = vs[i:] + vs[:i]
    return k, vs


def big_case(seed):
    """Large collections in special orders: sorted, searched, compared and used as keys."""
    rng = random.Random(seed)
    n = max(2, int(10 ** rng.uniform(0.7, 3.5)))
    el = rng.choice(["int", "edge", "str", "float", "scalar", "arr", "few"])
    def one():
        if el == "int": return rng.randint(-4 * n, 4 * n)
        if el == "edge": return rng.choice([rng.randint(I64_MIN, I64_MAX), rng.randint(-5, 5), I64_MIN, I64_MAX])
        if el == "str": return bytes(rng.choice(b"ab\x00\xff\x7f\x80") for _ in range(rng.randrange(12)))
        if el == "float": return z(rng.choice([rng.uniform(-1e3, 1e3), rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300), rng.choice(vals.FLOATS)]))
        if el == "arr": return Arr([rng.randrange(4) for _ in range(rng.randrange(7))])
        if el == "few": return rng.randrange(4)
        return z(vals.scalar(rng))
    base = [one() for _ in range(n)]
    if rng.random() < 0.5: base = list({canon(v): v for v in base}.values()); n = len(base)
    kind, vs = shape(rng, base)
    srt = sorted(vs, key=functools.cmp_to_key(cmp_val))
    lit_ = lambda xs: b"[" + b",".join(S(build(x)) for x in xs) + b"]"
    src = bytearray(diff.HEAD + b"let a = " + lit_(vs) + b"\nlet o = " + lit_(vs) + b"\n")
    exp = bytearray()
    def t(label, e, v): src.extend(b'T("%s", %s)\n' % (label, e)); exp.extend(label + b" " + ser(v).encode() + b"\n")
    t(b"eq", b"a == o", True)
    i = rng.choice([0, n - 1, rng.randrange(n)])
    other = twist(vs[i], rng)
    src += b"o[%d] = %s\n" % (i, S(build(other)))
    mod = vs[:i] + [other] + vs[i + 1:]
    same = equal(other, vs[i])
    t(b"ne", b"[a == o, a != o, o == a]", Arr([same, not same, same]))
    t(b"short", b"a == %s" % lit_(vs[:-1]) if n < 400 else b"1", False if n < 400 else 1)
    # arrays as keys
    src += b"let d = @[]\nd[a] = 1\n"
    t(b"key", b"[std.contains(d, o), std.contains(d, %s), std.contains(d, a)]" % lit_(vs), Arr([same, True, True]))
    cs = {canon(v) for v in vs}
    def has(label, arr, cset):
        for _ in range(6):
            v = rng.choice(vs) if rng.random() < 0.5 else rng.choice([one(), twist(rng.choice(vs), rng)])
            t(label, b"std.contains(%s, %s)" % (arr, S(build(v))), canon(v) in cset)
        for v in (vs[0], vs[-1], srt[0], srt[-1]): t(label, b"std.contains(%s, %s)" % (arr, S(build(v))), canon(v) in cset)
    has(b"has", b"a", cs)
    # one dict with all of them as keys
    src += b"let m = @[]\nlet ix = 0\nfor x in std.iter(a) do m[x] = ix ix = ix + 1 end\n"
    last = {}
    for j, v in enumerate(vs): last[canon(v)] = j
    t(b"mlen", b"std.len(m)", len(last))
    for j in {0, n - 1, *[rng.randrange(n) for _ in range(6)]}: t(b"m", b"m[a[%d]]" % j, last[canon(vs[j])])
    has(b"mhas", b"m", cs)
    src += b"let m2 = @[]\nfor x in std.iter(a) do m2[x] = m[x] end\n"
    t(b"meq", b"[m == m2, m != m2]", Arr([True, False]))
    src += b"m2[a[%d]] = nil\n" % i
    t(b"mne", b"[m == m2, m2 == m]", Arr([False, False]))
    src += b"std.sort(a)\n"
    t(b"sorted", b"a", Arr(srt))
    has(b"shas", b"a", cs)
    t(b"ends", b"[a[0], a[%d], std.len(a)]" % (n - 1), Arr([srt[0], srt[-1], n]))
    src += b"std.sort(o)\n"
    t(b"osorted", b"o", Arr(sorted((z(x) for x in mod), key=functools.cmp_to_key(cmp_val))) if not any(has_dict(x) for x in mod) else None) if not any(has_dict(x) for x in mod) and not any(map(negz, mod)) else None
    r = common.hush(bytes(src))
    if r.timeout and not r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    return ok("%d elements (%s, %s)" % (n, el, kind), bytes(src), bytes(exp), norm_output(r.out), r, exp.count(b"\n"), {"big_collections": 1, "big_elements": n, "order_" + kind: 1}, src)


def negz(v):
    t = tname(v)
    if t == "float": return v == 0 and str(v)[0] == "-"
    if t == "array": return any(map(negz, v.a))
    return False


def deep_case(seed):
    """Deeply nested and large values."""
    rng = random.Random(seed)
    n = rng.choice([20, 60, 120])
    kind = rng.choice(["arr", "dict", "err", "mix"])
    def wrap(k, x): return {"arr": b"[%s]", "dict": b"@[k: %s]", "err": b'std.error("e", %s)'}[k] % x
    src = b"let mk = function (leaf, depth)\n  let v = leaf\n  for i in std.range(0, depth, 1) do\n    let m = i % 3\n    v = " + {
        "arr": b"[v]", "dict": b"@[k: v]", "err": b'std.error("e", v)', "mix": b'if m == 0 then [v, i] elseif m == 1 then @[k: v, j: [i]] else std.error("x", v) end'}[kind] + b"\n  end\n  v\nend\n"
    pairs = [(1, n, 1, n, True), (1, n, 2, n, False), (1, n, 1, n + 3, False), (b"s", n, b"s", n, True), (1, n, 1.0, n, False), (Byte(97), n, b"a", n, False)]
    exp = bytearray()
    for i, (a, da, b, db, e) in enumerate(pairs):
        A, B = S(lit(a)), S(lit(b))
        src += b"let a%d = mk(%s, %d) let b%d = mk(%s, %d) let d%d = @[] d%d[a%d] = 7\nstd.println(a%d == b%d, std.contains(d%d, b%d), std.len(d%d), std.contains([b%d], a%d))\nd%d[b%d] = 8\nstd.println(std.len(d%d), d%d[a%d])\n" % (
            i, A, da, i, B, db, i, i, i, i, i, i, i, i, i, i, i, i, i, i, i)
        t = b"true" if e else b"false"
        exp += b"%s\t%s\t1\t%s\n%d\t%d\n" % (t, t, t, 1 if e else 2, 8 if e else 7)
    r = common.hush(src)
    if r.timeout and not r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    return ok("deep values (%s, depth %d)" % (kind, n), src, bytes(exp), r.out, r, len(pairs), {"deep_pairs": len(pairs)}, src)


def fun_case(seed):
    """Functions as values: a function equals itself, however it is reached, and no function written elsewhere; so in collections and as a key."""
    r = random.Random(seed)
    src = bytearray(diff.HEAD + b"let out = []\nlet id = function (x) x end\n")
    forms = [b"function () 1 end", b"function () 1 end", b"function (a) a end", b"function (n) if n > 0 then SELF(n - 1) else n end end", b"function () [SELF] end", b"function () @[ me: SELF, k: 1 ] end",
             b"function (n) out end", b"function () outer end", b"(function () let c = 0 let g = function () c = c + 1 SELF end g end)()", b"(function () let g = nil g = function () g end g end)()",
             b"std.len", b"std.type", b"std.iter([1])", b"std.bind(1, std.len)", b"std.range(0, 1, 1)", b"std.regex(\"a\").match", b"function () OTHER end", b"@[ m: function () self end ].m"]
    n = r.randint(2, 7)
    names = [b"f%d" % i for i in range(n)]
    src += b"let outer = []\n" + b"".join(b"let %s = nil\n" % x for x in names)
    for x in names:
        src += x + b" = " + r.choice(forms).replace(b"SELF", x).replace(b"OTHER", r.choice(names)) + b"\n"
        if r.random() < 0.3: src += b"std.push(%s, %s)\n" % (r.choice([b"out", b"outer"]), x)
    exp = bytearray()
    def t(e, v): src.extend(b'T("f", std.catch(function () %s end))\n' % e); exp.extend(b"f " + ser(v).encode() + b"\n")
    text = bytes(src)
    kind = {}
    for x in names: kind[x] = [l for l in text.split(b"\n") if l.startswith(x + b" = ")][0].split(b" = ", 1)[1]
    def differs(x, y):
        """Certainly two functions: written in the program at two places, or one of them in the library."""
        return x != y and not (kind[x].startswith(b"std.") and kind[y].startswith(b"std."))
    src += b"let d = @[]\n" + b"".join(b"d[%s] = %d\n" % (x, i) for i, x in enumerate(names) if not kind[x].startswith(b"std."))
    own = [x for x in names if not kind[x].startswith(b"std.")]
    for x in names:
        t(b"%s == %s" % (x, x), True); t(b"%s != %s" % (x, x), False)
        t(b"id(%s) == %s" % (x, x), True)
        t(b"[%s, 1] == [%s, 1]" % (x, x), True)
        t(b"@[ k: %s ] == @[ k: id(%s) ]" % (x, x), True)
        t(b"std.error(\"e\", %s) == std.error(\"e\", %s)" % (x, x), True)
        t(b"std.contains([nil, %s], %s)" % (x, x), True)
        t(b"[%s == nil, %s == 1, %s == \"\", %s == [], %s != @[]]" % ((x,) * 5), Arr([False, False, False, False, True]))
    for x in own: t(b"[d[%s], std.contains(d, id(%s))]" % (x, x), Arr([names.index(x), True]))
    t(b"std.len(d)", len(own))
    for _ in range(6):
        x, y = r.choice(names), r.choice(names)
        if differs(x, y):
            t(b"[%s == %s, %s != %s, std.contains([%s], %s), [%s] == [%s]]" % (x, y, x, y, x, y, x, y), Arr([False, True, False, False]))
    t(b"let l = [%s] std.sort(l) let q = [std.len(l), %s] q" % (b", ".join(names), b", ".join(b"std.contains(l, %s)" % x for x in names)), Arr([n] + [True] * n))
    q = common.hush(bytes(src))
    if q.timeout and not q.stuck: return {"ok": True, "inconclusive": "watchdog"}
    return ok("functions as values", bytes(src), bytes(exp), norm_output(q.out), q, exp.count(b"\n"), {"function_comparisons": exp.count(b"\n")}, bytes(src))


def run(c):
    c.rule = ("pools of random data values with rebuilt duplicates and near misses: all pairs compared, used as dict keys in random operation sequences, sorted in two "
              "permutations; collections of up to 3000 elements in random and special orders; deep nestings to depth 120; distinct by the values")
    c.map(eq_case, ["eq/%d/%d" % (c.seed, i) for i in range(c.n(250, 4000))], cap=c.cap(60, 900))
    if c.viol: return
    c.map(key_case, ["key/%d/%d" % (c.seed, i) for i in range(c.n(300, 5000))], cap=c.cap(60, 900))
    if c.viol: return
    c.map(sort_case, ["sort/%d/%d" % (c.seed, i) for i in range(c.n(700, 10000))], cap=c.cap(80, 900))
    if c.viol: return
    c.map(big_case, ["big/%d/%d" % (c.seed, i) for i in range(c.n(250, 4000))], cap=c.cap(90, 900))
    if c.viol: return
    c.map(deep_case, ["deep/%d/%d" % (c.seed, i) for i in range(c.n(40, 400))], cap=c.cap(60, 600))
    if c.viol: return
    c.map(fun_case, ["fun/%d/%d" % (c.seed, i) for i in range(c.n(250, 4000))], cap=c.cap(60, 600))
    fine = [(0, b"bool\n"), (0, b"error\n")]
    if not c.viol: c.exhaust("self-containing", b"let a = [1]\nstd.push(a, a)\nlet b = [1]\nstd.push(b, b)\nstd.println(std.type(std.catch(function () a == b end)))\n", fine)
    if not c.viol: c.exhaust("recursive-closures", b"let make = function () let g = nil g = function () g end g end\nlet a = make()\nlet b = make()\nstd.println(std.type(std.catch(function () a == b end)))\n", fine)
