"""C01: operators. Operand matrix over edge and random values, precedence over flat operator
sequences, and generated expression programs, all against the reference model."""
import itertools, math, random, struct
from engine import common, diff, gen, printer
from engine.lang import *

BINOPS = ["+", "-", "*", "/", "%", "++", "==", "!=", "<", "<=", ">", ">=", "and", "or"]
EDGE_INTS = [0, 1, -1, 2, -2, 3, 7, -7, 10, 63, 64, 255, 256, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, (1 << 32) - 1,
             3037000499, 3037000500, -3037000499, -3037000500, 1 << 53, (1 << 53) + 1, 1 << 62, -(1 << 62),
             I64_MAX, I64_MAX - 1, I64_MIN, I64_MIN + 1, I64_MAX // 2, I64_MIN // 2, I64_MAX // 3, 4611686018427387905]
EDGE_FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 2.5, -2.5, 1e16, 1e15, 9007199254740992.0, 9007199254740994.0,
               1e308, -1e308, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, math.inf, -math.inf, math.nan,
               3.0, 7.0, -7.0, 1e-10, 123456.789]
STRINGS = [b"", b"a", b"b", b"A", b"aa", b"ab", b"a\x00", b"\x00", b"\xff", b"\x7f", b"\x80", b"\xc3\xa9", b"z" * 600,
           b"10", b"9", b"a" * 599 + b"b", b"a" * 600]
CHARS = [0, 10, 65, 97, 98, 127, 128, 200, 255]


def values(rng, n):
    out = [None, True, False]
    out += EDGE_INTS + EDGE_FLOATS + STRINGS + [Byte(c) for c in CHARS]
    for _ in range(n):
        k = rng.random()
        if k < 0.5:
            b = rng.choice([8, 16, 31, 32, 33, 48, 62, 63])
            out.append(rng.getrandbits(b) * rng.choice([1, -1]))
        elif k < 0.9:
            f = struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]
            out.append(f if rng.random() < 0.5 else rng.uniform(-1e6, 1e6))
        else:
            out.append(bytes(rng.randrange(256) for _ in range(rng.randrange(6))))
    return out


def compound(rng):
    """(expression, value) for arrays, dicts, errors and functions."""
    def arr(xs): return N("arr", [lit(x) for x in xs])
    out = [N("arr", []), arr([1]), arr([1, 2]), arr([1.0]), arr([b"a"]), N("arr", [arr([1])]), N("arr", [lit(None)]), N("arr", [lit(Byte(97))]),
           N("dict", []), N("dict", [("a", lit(1))]), N("dict", [("b", lit(1))]), N("dict", [("a", lit(1)), ("b", lit(2))]),
           N("dict", [("a", arr([1]))]), N("dict", [("a", lit(1.0))]),
           scall("error", lit(b"x"), lit(1)), scall("error", lit(b"x"), lit(2)), scall("error", lit(b"y"), lit(1)), scall("error", lit(b"x"), arr([1])),
           dot(var("std"), "len"), dot(var("std"), "push")]
    return out


def matrix_case(item):
    """Every operator on all pairs A x B. item = (label, seed, A-exprs picker, ops)."""
    label, seed, kind, lo, hi = item
    rng = random.Random(seed)
    vals = values(random.Random("values/" + seed.split("#")[0]), 40)
    exprs = [lit(v) for v in vals] + compound(rng)
    left = exprs[lo:hi]
    if kind == "unary":
        block = [let("xs", N("arr", exprs)),
                 for_("x", scall("iter", var("xs")), [
                     trace("neg", scall("catch", fn([], [es(un("-", var("x")))]))),
                     trace("not", scall("catch", fn([], [es(un("not", var("x")))]))),
                     trace("negneg", scall("catch", fn([], [es(un("-", un("-", var("x"))))])))])]
    else:
        rs = exprs
        if kind == "pairs":
            block = [let("xs", N("arr", left)), let("ys", N("arr", rs)),
                     for_("x", scall("iter", var("xs")), [for_("y", scall("iter", var("ys")), [
                         trace(op, scall("catch", fn([], [es(bin_(op, var("x"), var("y")))]))) for op in BINOPS])])]
        else:  # literal operands written in place
            block = []
            for _ in range(120):
                a, b = rng.choice(exprs), rng.choice(exprs)
                block.append(trace(rng.choice("abc"), scall("catch", fn([], [es(bin_(rng.choice(BINOPS), clone(a), clone(b)))]))))
    r = diff_big(block, seed, 5000000)
    return r


def clone(e):
    if isinstance(e, N):
        return N(e.k, *[clone(x) for x in e.f])
    if isinstance(e, list): return [clone(x) for x in e]
    if isinstance(e, tuple): return tuple(clone(x) for x in e)
    return e


def diff_big(block, seed, budget):
    old = gen.expect
    gen_expect = lambda b, budget_=budget: old(b, budget_)
    gen.expect = gen_expect
    try:
        r = diff.check_block(block, seed, "pretty", shrinkable=False)
    finally:
        gen.expect = old
    if r["stats"].get("discarded"): r["inconclusive"] = "model budget"
    # each record is an evaluation of one operator
    n = r["stats"].get("trace_events", 1)
    r["evals"] = n
    return r


# ---- precedence: flat sequences parsed by an independent precedence climber
def flat_parse(toks):
    """toks: alternating operand exprs and operators, operands may carry prefix ops."""
    pos = [0]
    def prefix():
        t = toks[pos[0]]
        if isinstance(t, str) and t in ("-u", "not"):
            pos[0] += 1
            return un("-" if t == "-u" else "not", prefix())
        pos[0] += 1
        return t
    def level(p):
        if p == 8: return prefix()
        e = level(p + 1)
        while pos[0] < len(toks) and printer.PREC[toks[pos[0]]] == p:
            op = toks[pos[0]]; pos[0] += 1
            e = N("bin", op, e, level(p + 1))
        return e
    return level(1)


def flat_case(item):
    seed, count = item
    rng = random.Random(seed)
    block = [let("a", lit(5)), let("b", lit(3)), let("c", lit(2)), let("p", lit(True)), let("q", lit(False)), let("s", lit(b"s")), let("t", lit(b"t")), let("f", lit(1.5)), let("g", lit(0.5)),
             let("arr", N("arr", [lit(7), lit(11)])), let("o", N("dict", [("k", lit(4)), ("m", fn(["z"], [es(bin_("+", var("z"), lit(1)))]))]))]
    texts = []
    def operand():
        k = rng.random()
        if k < 0.45: e = rng.choice([var("a"), var("b"), var("c"), lit(rng.randint(0, 9)), idx(var("arr"), lit(rng.randint(0, 1))), dot(var("o"), "k"), call(dot(var("o"), "m"), lit(rng.randint(0, 9)))])
        elif k < 0.65: e = rng.choice([var("p"), var("q"), lit(True), lit(False)])
        elif k < 0.8: e = rng.choice([var("s"), var("t"), lit(b"u")])
        elif k < 0.9: e = rng.choice([var("f"), var("g")])
        else:
            e = N("paren", bin_(rng.choice(["+", "-"]), lit(rng.randint(0, 9)), lit(rng.randint(0, 9))))
        if rng.random() < 0.3: e = call(var("V"), lit(b"v%d" % rng.randint(0, 99)), e)
        return e
    for _ in range(count):
        n = rng.choice([2, 2, 3, 3, 4, 5, 6, 8])
        toks = []
        # biased chains that type-check, and unbiased ones
        mode = rng.random()
        for i in range(n):
            if mode < 0.5:
                while rng.random() < 0.15: toks.append("-u")
                toks.append(rng.choice([var("a"), var("b"), var("c"), lit(rng.randint(1, 9))]))
            else:
                while rng.random() < 0.15: toks.append(rng.choice(["-u", "not"]))
                toks.append(operand())
            if i < n - 1:
                if mode < 0.25: toks.append(rng.choice(["+", "-", "*", "/", "%"]))
                elif mode < 0.5: toks.append(rng.choice(["+", "-", "*", "<", "==", "!=", ">="]))
                else: toks.append(rng.choice(BINOPS))
        if mode < 0.25 and rng.random() < 0.5: toks += [rng.choice(["<", "==", ">", "!="]), lit(rng.randint(-20, 20)), rng.choice(["and", "or", "=="]), rng.choice([var("p"), var("q"), lit(True)])]
        # print flat, without any parentheses of ours
        p = printer.Printer(rng)
        for t in toks:
            if isinstance(t, str): p.put("-" if t == "-u" else t)
            else: p.expr(t, 9)
        e = flat_parse(list(toks))
        txt = printer.join(p.toks, rng, rng.choice(["pretty", "tight"]))
        texts.append((e, txt))
    blk = list(block)
    src = bytearray(diff.HEAD + printer.source(block, None, "pretty"))
    for i, (e, txt) in enumerate(texts):
        blk.append(trace("e%d" % i, scall("catch", fn([], [es(e)]))))
        src += b'T("e%d", std.catch(function () %s end))\n' % (i, txt.strip())
    out, status, kind, m = gen.expect(blk)
    obs, r = diff.observe(bytes(src))
    if obs is None: return {"ok": True, "inconclusive": "watchdog"}
    res = {"ok": True, "evals": count, "distinct": [out], "stats": {"flat_expressions": count, "trace_events": out.count(b"\n")}}
    if obs != (out, status, kind):
        d = diff.first_diff(out, obs[0])
        res.update(ok=False, desc="operator grouping or evaluation differs: " + d,
                   files={"program.hsh": bytes(src), "expected.txt": out, "observed.txt": obs[0], "stderr.txt": r.err})
    return res


def long_case(item):
    """Long chains and deep nesting of operators."""
    seed, kind = item
    rng = random.Random(seed)
    n = rng.choice([50, 200, 600])
    def chain(ops, mk):
        e = mk()
        for _ in range(n): e = bin_(rng.choice(ops), e, mk())
        return e
    def right(ops, mk):
        e = mk()
        for _ in range(n): e = bin_(rng.choice(ops), mk(), N("paren", e))
        return e
    block = []
    for i, (ops, mk) in enumerate([(["+", "-"], lambda: lit(rng.randint(0, 1000))),
                                   (["++"], lambda: lit(bytes([rng.randint(97, 122)]))),
                                   (["and", "or"], lambda: call(var("V"), lit(b"w"), lit(rng.random() < 0.5))),
                                   (["+", "*", "-", "/"], lambda: lit(float(rng.randint(1, 3))))]):
        block.append(trace("c%d" % i, scall("catch", fn([], [es(chain(ops, mk))]))))
        block.append(trace("r%d" % i, scall("catch", fn([], [es(right(ops, mk))]))))
    return diff_big(block, seed, 2000000)


def wide_case(item):
    """Operators on long strings."""
    seed, i = item
    rng = random.Random(seed)
    unit = bytes(rng.choice(b"abcdefghij") for _ in range(rng.choice([1, 3, 16])))
    n = [300, 5000, 70000, 1 << 18, 1 << 20, 3 << 20][i % 6]
    big = unit
    k = 0
    while len(big) < n: big += big; k += 1
    src = diff.HEAD + b"let s = \"%s\"\nfor i in std.range(0, %d, 1) do s = s ++ s end\n" % (unit, k)
    rows = []
    def t(e, v): rows.append(v); nonlocal src; src += b"T(\"%d\", %s)\n" % (len(rows) - 1, e)
    t(b"std.len(s)", len(big)); t(b"std.len(s ++ \"x\")", len(big) + 1); t(b"std.len(\"x\" ++ s)", len(big) + 1); t(b"std.len(s ++ s)", 2 * len(big))
    k = rng.randrange(len(big)); w = b"xy" + big
    t(b"(\"xy\" ++ s)[%d]" % k, Byte(w[k])); t(b"(s ++ \"z\")[%d]" % len(big), Byte(122))
    t(b"s ++ \"a\" < s ++ \"b\"", True); t(b"s ++ \"a\" == s ++ \"b\"", False); t(b"s ++ \"a\" != s ++ \"a\"", False)
    t(b"s < s ++ \"a\"", True); t(b"s >= s ++ \"a\"", False); t(b"s <= s", True); t(b"s ++ \"b\" > s ++ \"a\" ++ s", True)
    t(b"s == s ++ \"\"", True); t(b"\"a\" ++ s == \"b\" ++ s", False)
    r = common.hush(bytes(src))
    if r.timeout: return {"ok": True, "inconclusive": "watchdog"}
    exp = b"".join(b"%d %s\n" % (i, ser(v).encode()) for i, v in enumerate(rows))
    res = {"ok": r.status == 0 and r.out == exp, "evals": len(rows), "distinct": ["wide%d%s" % (n, unit)], "stats": {"wide_results": len(rows)}}
    if not res["ok"]: res.update(desc="operators on long strings: status %s, %s" % (r.status, diff.first_diff(exp, r.out)),
                                 files={"program.hsh": bytes(src), "expected.txt": exp, "observed.txt": r.out, "stderr.txt": r.err})
    return res


def run(c):
    c.rule = ("every operator on pairs of edge and random operands of all types (one evaluation per traced operator result), flat operator "
              "sequences grouped by an independent precedence climber, long chains, and generated expression programs; a program is "
              "non-trivial when it produced more than 3 trace records, distinct by its recorded event log")
    vals = len(values(random.Random("x"), 40)) + len(compound(None))
    reps = c.n(1, 6)
    items = []
    step = 12
    for rep in range(reps):
        base = "%d.%d#" % (c.seed, rep)
        for lo in range(0, vals, step): items.append(("m", base + str(lo), "pairs", lo, lo + step))
        items.append(("m", base + "u", "unary", 0, 0))
        for j in range(20): items.append(("m", base + "l%d" % j, "literal", 0, 0))
    c.map(matrix_case, items, cap=c.cap(120, 1200))
    c.stats["operand_values"] = vals
    if c.viol: return
    c.map(flat_case, [("flat/%d/%d" % (c.seed, i), 60) for i in range(c.n(300, 4000))], cap=c.cap(80, 900))
    if c.viol: return
    c.map(long_case, [("long/%d/%d" % (c.seed, i), 0) for i in range(c.n(24, 200))], cap=c.cap(60, 300))
    if c.viol: return
    c.map(wide_case, [("wide/%d/%d" % (c.seed, i), i) for i in range(c.n(16, 120))], cap=c.cap(60, 300))
    if c.viol: return
    c.map(diff.case_batch, diff.programs(c, ["expr"], c.n(3000, 40000)), cap=c.cap(120, 1500))
