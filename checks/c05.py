"""C05: literals and layout."""
import random, struct
from fractions import Fraction
from engine import common, diff, gen, printer
from engine.lang import *

ESC = {0x22: b'\\"', 0x27: b"\\'", 0x0a: b"\\n", 0x09: b"\\t", 0x00: b"\\0", 0x5c: b"\\\\"}
KW = sorted(printer.KEYWORDS) + ["std"]


def rstr(rng):
    k = rng.random()
    if k < 0.3: alpha = list(range(256))
    elif k < 0.5: alpha = [0x22, 0x27, 0x0a, 0x09, 0, 0x5c, ord("n"), ord("t"), ord("0")]
    elif k < 0.7: alpha = list(range(32, 127))
    elif k < 0.85:
        return "".join(rng.choice(["é", "€", "😀", "a", "\n", "\\", "\"", "ß", "日本"]) for _ in range(rng.randint(0, 30))).encode()
    else: alpha = list(b"#{}$[]()@|&;?%*~ end")
    return bytes(rng.choice(alpha) for _ in range(rng.choice([0, 1, 2, 3, 8, 30, 200, 3000] if rng.random() < 0.2 else [0, 1, 2, 3, 5, 10])))


def rfloat(rng):
    """(literal text, value)"""
    ip = str(rng.choice([0, 0, 1, 7, 42, rng.getrandbits(20), rng.getrandbits(60), rng.getrandbits(200)]))
    if rng.random() < 0.1: ip = "0" * rng.randint(1, 4) + ip
    k = rng.random()
    fp = "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 1, 2, 5, 17, 20, 40]))) if k < 0.75 else None
    ex = str(rng.choice([0, 1, 2, 5, 10, 15, 22, 23, 100, 290, 300, 305])) if k >= 0.75 or rng.random() < 0.4 else None
    t = ip + ("." + fp if fp is not None else "") + ((rng.choice("eE") + ex) if ex is not None else "")
    return t.encode(), float(t)


def literals(seed):
    rng = random.Random(seed)
    src = bytearray(diff.HEAD)
    exp = bytearray()
    n = 0
    def add(text, v):
        nonlocal n
        form = rng.random()
        if form < 0.6: src.extend(b'T("l%d", ' % n + text + b")")
        elif form < 0.75: src.extend(b"let v%d = " % n + text + b'\nT("l%d", v%d)' % (n, n))
        elif form < 0.9: src.extend(b'T("l%d", [' % n + text + b",][0])")
        else: src.extend(b'T("l%d", @[k: ' % n + text + b"].k)")
        src.extend(rng.choice([b"\n", b" ", b"#c\n"]))
        exp.extend(b"l%d " % n + ser(v).encode() + b"\n")
        n += 1
    for _ in range(12):
        s = rstr(rng)
        # escapes are random but no quote/backslash stays raw
        out = bytearray(b'"')
        for c in s:
            if c in (0x22, 0x5c) or (c in ESC and rng.random() < 0.5): out += ESC[c]
            else: out.append(c)
        add(bytes(out + b'"'), s)
    for _ in range(16):
        c = rng.randrange(256) if rng.random() < 0.7 else rng.choice(list(ESC))
        t = ESC[c] if c in (0x27, 0x5c) or (c in ESC and rng.random() < 0.5) else bytes([c])
        add(b"'" + t + b"'", Byte(c))
    for _ in range(12):
        i = rng.choice([rng.getrandbits(rng.randint(1, 63)), I64_MAX, 0, 10 ** rng.randint(0, 18)])
        add(b"0" * rng.choice([0, 0, 0, 1, 5]) + str(i).encode(), i)
    for _ in range(16):
        t, f = rfloat(rng)
        add(t, f)
    r = common.hush(bytes(src))
    return verdict(r, bytes(src), bytes(exp), n, "literals", exp)


def verdict(r, src, exp, n, what, key, status=0):
    if r.timeout and not r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    got = norm_output(r.out)
    res = {"ok": True, "evals": n, "distinct": [bytes(key)], "stats": {what: n}}
    if got != exp or r.status != status:
        res.update(ok=False, desc="%s: %s; status %s (expected %s) %s" % (what, diff.first_diff(exp, got), r.status, status, r.err.decode("utf-8", "replace")[:500]),
                   files={"program.hsh": src, "expected.txt": exp, "observed.txt": got, "stderr.txt": r.err})
    return res


def names(seed):
    """Identifiers that begin with, end with or contain keywords."""
    rng = random.Random(seed)
    ids = []
    for k in KW:
        ids += [k + "x", k + "_", "_" + k, k.upper(), k + "1", k.capitalize(), k + k, "x" + k, k + "_" + rng.choice(KW), k[:-1] or "q", k + "End"]
    ids = [i for i in dict.fromkeys(ids) if i not in printer.KEYWORDS and i != "std" and i not in ("S", "T", "V")]
    rng.shuffle(ids)
    ids = ids[:60]
    b = []
    for j, n in enumerate(ids):
        k = j % 6
        if k == 0: b += [let(n, lit(j)), trace("n", var(n)), assign(var(n), bin_("+", var(n), lit(1))), trace("n", var(n))]
        elif k == 1: b += [N("fundef", n, fn([n + "2"], [es(bin_("*", var(n + "2"), lit(2)))])), trace("f", call(var(n), lit(j)))]
        elif k == 2: b += [let("d%d" % j, N("dict", [(n, lit(j))])), trace("d", dot(var("d%d" % j), n)), assign(dot(var("d%d" % j), n), lit(-j)), trace("d", var("d%d" % j))]
        elif k == 3: b += [for_(n, scall("range", lit(0), lit(2), lit(1)), [trace("i", var(n))])]
        elif k == 4: b += [trace("p", call(N("paren", fn([n], [es(var(n))])), lit(j)))]
        else: b += [let(n, lit(True)), trace("b", bin_("and", var(n), un("not", var(n)))), es(if_(var(n), [trace("y", lit(1))]))]
    r = diff.check_block(b, seed, rng.choice(["pretty", "tight", "wild"]))
    r["stats"]["identifiers"] = len(ids)
    return r


def sizes(seed):
    """Big texts: long literals, names, comments, lists and programs mean what short ones do."""
    rng = random.Random(seed)
    src = bytearray(diff.HEAD); exp = bytearray(); n = 0
    def size(): return int(10 ** rng.uniform(1, 4.3)) if rng.random() < 0.8 else rng.choice([63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537])
    def show(label, v):
        nonlocal n
        if isinstance(v, list): v = Arr(v)
        exp.extend(label + b" " + ser(v).encode() + b"\n"); n += 1
    for _ in range(rng.randint(2, 4)):
        k = rng.choice(["str", "str", "name", "name", "list", "dict", "comment", "num", "lines", "blank", "args", "elseif", "cmd"])
        m = size()
        if k == "str":
            alpha = rng.choice([list(range(256)), list(b"\r\n"), list(b"ab\r\n\0\t\\'\""), list("aé€😀".encode()), list(b" #")])
            body = bytes(rng.choice(alpha) for _ in range(min(m, 6000))) * max(1, m // 6000)
            out = bytearray()
            for ch in body: out += ESC[ch] if ch in (0x22, 0x5c) or (ch in ESC and rng.random() < 0.2) else bytes([ch])
            cut = sorted(rng.randrange(len(body)) for _ in range(3))
            src += b'let s%d = "' % n + out + b'"\nT("s", std.len(s%d))\n' % n
            src += b'T("h", s%d == std.hex.decode("' % n + body.hex().encode() + b'"))\n'
            show(b"s", len(body)); show(b"h", True)
        elif k == "name":
            m = min(m, 20000)
            stem = "".join(rng.choice("abcxyzABC_0189") for _ in range(m))
            stem = ("n" + stem).encode()
            at = rng.choice([len(stem), rng.randint(1, len(stem))])
            na, nb = stem[:at] + b"1" + stem[at:], stem[:at] + b"2" + stem[at:]
            src += b"let %s = 1\nlet %s = 2\nT(\"n\", [%s, %s, std.len(@[%s: 1, %s: 2])])\n" % (na, nb, na, nb, na, nb)
            show(b"n", [1, 2, 2])
            src += b'T("k", @[%s: 5]["%s"])\n' % (na, na); show(b"k", 5)
            src += b'function f%s(%s) %s + 1 end T("f", f%s(%s))\n' % (na, nb, nb, na, na); show(b"f", 2)
        elif k == "list":
            m = min(m, 5000); vals_ = [rng.randrange(1000) for _ in range(m)]
            src += b"let a%d = [" % n + rng.choice([b",", b", ", b",\n"]).join(b"%d" % v for v in vals_) + rng.choice([b"", b","]) + b"]\n"
            w = rng.sample(range(m), 3)
            src += b'T("a", [std.len(a%d), %s])\n' % (n, b", ".join(b"a%d[%d]" % (n, i) for i in w + [m - 1])); show(b"a", [m] + [vals_[i] for i in w + [m - 1]])
        elif k == "dict":
            m = min(m, 3000)
            src += b"let d%d = @[" % n + b",".join(b"k%d: %d" % (i, i * 7) for i in range(m)) + b"]\n"
            w = rng.sample(range(m), 3)
            src += b'T("d", [std.len(d%d), %s])\n' % (n, b", ".join(b"d%d.k%d" % (n, i) for i in w + [m - 1])); show(b"d", [m] + [i * 7 for i in w + [m - 1]])
        elif k == "comment":
            body = bytes(rng.choice([c for c in range(256) if c != 10]) for _ in range(min(m, 3000))) * max(1, m // 3000)
            src += b"#" + body + b"\nT(\"c\", 1) #" + body + b"\n"; show(b"c", 1)
        elif k == "num":
            z = b"0" * min(m, 5000)
            src += b'T("i", %s42)\nT("x", %s1.5%s)\nT("e", 2.0e%s1)\nT("y", %s * 2)\n' % (z, z, z, z, z); show(b"i", 42); show(b"x", 1.5); show(b"e", 20.0); show(b"y", 0)
        elif k == "lines":
            m = min(m, 4000)
            src += b"let q%d = 0\n" % n + (b"q%d = q%d + 1" % (n, n) + rng.choice([b"\n", b" ", b"\r\n", b"\n\n"])) * m + b'T("q", q%d)\n' % n; show(b"q", m)
        elif k == "blank":
            src += rng.choice([b"\n", b" ", b"\t", b"\r\n", b"#\n", b" \n"]) * m + b'T("b", 1)\n'; show(b"b", 1)
        elif k == "args":
            m = min(m, 2000)
            src += b"function g%d(%s) [p0, p%d, p%d] end\n" % (n, b", ".join(b"p%d" % i for i in range(m)), m // 2, m - 1)
            src += b'T("g", g%d(%s))\n' % (n, b",".join(b"%d" % (i * 3) for i in range(m))); show(b"g", [0, m // 2 * 3, (m - 1) * 3])
        elif k == "elseif":
            m = min(m, 120); t = rng.randint(0, m)
            src += b"let z%d = if false then 0 " % n + b" ".join(b"elseif %d == %d then %d" % (i, t, i + 1) for i in range(m)) + b" else 0 - 1 end\n" + b'T("z", z%d)\n' % n; show(b"z", t + 1 if t < m else -1)
        else:
            m = min(m, 20000); w = bytes(rng.choice(b"abcxyz0189_./:,+@-") for _ in range(m))
            src += b"let c%d = ${ echo w" % n + w + rng.choice([b" ", b"\n", b" #" + w + b"\n"]) * rng.choice([1, 50, 3000]) + b"'" + w + b"' }\n" + b'T("w", std.len(c%d.stdout))\n' % n; show(b"w", 2 * m + 3)
    r = common.hush(bytes(src), timeout=60)
    return verdict(r, bytes(src), bytes(exp), n, "big_texts", src)


def rejects(seed):
    """Literals that denote nothing are rejected."""
    rng = random.Random(seed)
    bad = [b"9223372036854775808", b"99999999999999999999999", b"1.", b"1.x", b"1e", b"1.5e", b"1e+5", b"''", b"'ab'", b"'", b'"abc', b"'a", b'"a\\', b"1e5.5e1e"]
    bad += [b'"\\' + bytes([c]) + b'"' for c in rng.sample([c for c in range(256) if c not in b"\"'nt0\\"], 6)]
    bad += [b"'\\" + bytes([c]) + b"'" for c in rng.sample([c for c in range(256) if c not in b"\"'nt0\\"], 4)]
    bad += [b"x = 1 !", b"let a = 1 & 2", b"let @ = 3", b"let a = $b", b"let \xc3\xa9 = 1", b"let end = 1", b"let nil = 1", b"let 1a = 2", b"`x`", b"let a = 1 ~ 2"]
    for t in bad:
        src = b'std.println("RAN")\nlet z = ' + t + b"\n"
        r = common.hush(src)
        if r.timeout and not r.stuck: return {"ok": True, "inconclusive": "watchdog"}
        if r.status != 2 or r.out or not r.err:
            return {"ok": False, "desc": "malformed text %r: status %s, stdout %r, expected rejection" % (t, r.status, r.out), "files": {"program.hsh": src, "stderr.txt": r.err}}
    return {"ok": True, "evals": len(bad), "distinct": [repr(bad)], "stats": {"malformed_literals": len(bad)}}


def cmd_layout(seed):
    """Command blocks: whitespace, newlines and comments between words change nothing."""
    rng = random.Random(seed)
    exp = bytearray(); src = bytearray()
    def ws(must=True):
        k = rng.random()
        if k < 0.3 and not must: return b""
        if k < 0.5: return b" "
        if k < 0.6: return b"\n"
        if k < 0.7: return b"\t \n\n  "
        if k < 0.75: return b"\r\n"
        if k < 0.8: return b"\x0c "
        return b" #" + rng.choice(printer.COMMENTS) + b"\n"
    for blk in range(rng.randint(2, 6)):
        n = rng.randint(1, 4)
        cap = rng.random() < 0.3
        src += b"let c%d = ${" % blk if cap else b"{"
        out = bytearray()
        for i in range(n):
            if i: src += ws(False) + b";"
            src += ws(False) + b"echo"
            words = [bytes(rng.choice(b"abcxyz0189_./:,+@-") for _ in range(rng.randint(1, 6))) for _ in range(rng.randint(0, 4))]
            words = [w if not w.startswith(b"-") and not w.startswith(b"@") else b"w" + w for w in words]
            for w in words: src += ws() + w
            out += b" ".join(words) + b"\n"
            for _ in range(rng.choice([0, 0, 1, 2])): src += ws() + b"|" + ws() + b"cat"
            if rng.random() < 0.2: src += ws(False) + b"?"
        if rng.random() < 0.4: src += ws(False) + b";"
        src += ws(False) + b"}"
        src += rng.choice([b"\n", b" "])
        if cap:
            src += b"std.print(c%d.stdout)\n" % blk
        exp += out
    r = common.hush(bytes(src))
    return verdict(r, bytes(src), bytes(exp), 1, "command_layout", src)


def run(c):
    c.rule = ("random literals of every kind in random spellings, literals, names, comments, lists and programs of up to 64 KiB, malformed literals, keyword-like identifiers, command blocks and whole generated programs "
              "printed with random whitespace, comments (any bytes), line ends, trailing commas or without any optional space; distinct by event log or text")
    c.map(literals, ["lit/%d/%d" % (c.seed, i) for i in range(c.n(1200, 20000))], cap=c.cap(60, 900), chunk=4)
    if c.viol: return
    c.map(sizes, ["siz/%d/%d" % (c.seed, i) for i in range(c.n(400, 6000))], cap=c.cap(90, 900), chunk=4)
    if c.viol: return
    c.map(names, ["nam/%d/%d" % (c.seed, i) for i in range(c.n(120, 1500))], cap=c.cap(40, 400))
    if c.viol: return
    c.map(rejects, ["rej/%d/%d" % (c.seed, i) for i in range(c.n(30, 200))], cap=c.cap(40, 400))
    if c.viol: return
    c.map(cmd_layout, ["cl/%d/%d" % (c.seed, i) for i in range(c.n(400, 6000))], cap=c.cap(60, 600))
    if c.viol: return
    c.map(diff.case_batch, diff.programs(c, ["mix", "flow", "scope", "expr", "panic"], c.n(4000, 60000), styles=("wild", "wild", "tight")), cap=c.cap(120, 1500))
