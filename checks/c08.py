"""C08: string functions on arbitrary bytes, and regular expressions."""
import random, re
from engine import common, diff, printer, vals
from engine.lang import *
from . import c04

WS = ["\t", "\n", "\x0b", "\x0c", "\r", " ", "\x85", "\xa0", "\u1680", "\u2000", "\u2003", "\u200a", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000"]
WSB = [w.encode() for w in WS]


def trim(s):
    ch = True
    while ch:
        ch = False
        for w in WSB:
            if s.startswith(w): s = s[len(w):]; ch = True
            if s.endswith(w): s = s[:len(s) - len(w)]; ch = True
    return s


def L(b): return printer.str_token(b)


def rs(rng, alpha=None, n=None):
    if alpha is None:
        alpha = rng.choice([list(range(256)), list(b"ab"), list(b"aab,\n "), list(b"\xc3\xa9\x80\xff\x00a"), list(range(32, 127))])
    if n is None: n = rng.choice([0, 1, 2, 3, 5, 8, 13, 40, 200])
    return bytes(rng.choice(alpha) for _ in range(n))


def split(s, p):
    if p == b"": return [b""] + [bytes([c]) for c in s] + [b""]
    return s.split(p)


class Prog:
    def __init__(self):
        self.src = bytearray(diff.HEAD); self.exp = bytearray(); self.n = 0
    def t(self, text, v):
        self.src += b'T("%d", ' % self.n + text + b")\n"
        self.exp += b"%d " % self.n + ser(v).encode() + b"\n"
        self.n += 1
    def run(self, what, timeout=60):
        r = common.hush(bytes(self.src), timeout=timeout)
        if r.timeout and not r.stuck: return {"ok": True, "inconclusive": "watchdog"}
        got = norm_output(r.out)
        res = {"ok": True, "evals": self.n, "distinct": [bytes(self.src)], "stats": {what: self.n}}
        if got != self.exp or r.status != 0:
            d = diff.first_diff(bytes(self.exp), got)
            m = re.match(r"record (\d+)", d)
            line = ""
            if m:
                ls = [l for l in bytes(self.src).split(b"\n") if l.startswith(b'T("%d"' % int(m.group(1)))]
                line = ls[0][:400].decode("utf-8", "replace") if ls else ""
            res.update(ok=False, desc="%s: %s; %s; status %s %s" % (what, line, d, r.status, r.err.decode("utf-8", "replace")[:500]),
                       files={"program.hsh": bytes(self.src), "expected.txt": bytes(self.exp), "observed.txt": got, "stderr.txt": r.err})
        return res


def strings(seed):
    rng = random.Random(seed)
    p = Prog()
    for j in range(10):
        s = rs(rng)
        if rng.random() < 0.15: s = rs(rng, n=rng.choice([1000, 4096, 20000]))
        v = b"s%d" % j
        p.src += b"let %s = " % v + L(s) + b"\n"
        ix = [0, 1, len(s) // 2, len(s) - 1, len(s), len(s) + 1, -1, rng.randint(-3, len(s) + 3), I64_MAX, I64_MIN, 1 << 32]
        for _ in range(6):
            i = rng.choice(ix)
            if 0 <= i < len(s): p.t(b"%s[%d]" % (v, i), Byte(s[i]))
            else: p.t(b"std.catch(function () %s[%s] end)" % (v, lit_int(i)), Err("!index", b"panic"))
        for _ in range(8):
            a, n = rng.choice(ix), rng.choice(ix)
            if rng.random() < 0.6 and s: a = rng.randint(0, len(s)); n = rng.randint(0, len(s) - a)
            exp = None if a < 0 or n < 0 or a + n > len(s) else s[a:a + n]
            p.t(b"std.substr(%s, %s, %s)" % (v, lit_int(a), lit_int(n)), exp)
        p.t(b"std.len(%s)" % v, len(s)); p.t(b"std.is_empty(%s)" % v, not s)
        for _ in range(5):
            if s and rng.random() < 0.7:
                i = rng.randrange(len(s)); pat = s[i:i + rng.choice([1, 1, 2, 3, 10])]
            else: pat = rs(rng, n=rng.choice([0, 1, 2]))
            if pat == b"" and len(s) > 300: pat = b"a"
            sp = split(s, pat)
            if len(sp) < 300: p.t(b"std.split(%s, %s)" % (v, L(pat)), Arr(sp))
            p.t(b"std.len(std.split(%s, %s))" % (v, L(pat)), len(sp))
            if pat and len(s) * len(sp) < 300000:
                p.src += b"let j%d = \"\" let f%d = true for x in std.iter(std.split(%s, %s)) do if f%d then f%d = false else j%d = j%d ++ %s end j%d = j%d ++ x end\n" % (p.n, p.n, v, L(pat), p.n, p.n, p.n, p.n, L(pat), p.n, p.n)
                p.t(b"j%d == %s" % (p.n, v), True)
            rep = rng.choice([b"", b"x", pat, rs(rng, n=3), b"$0", pat + pat, b"\\1"])
            p.t(b"std.replace(%s, %s, %s)" % (v, L(pat), L(rep)), s.replace(pat, rep))
            if pat: p.t(b"std.replace(%s, %s, %s) == %s" % (v, L(pat), L(pat), v), True)
        p.t(b"std.trim(%s)" % v, trim(s))
        for _ in range(3):
            w = b"".join(rng.choice(WSB) for _ in range(rng.randint(0, 3))) + s[:50] + b"".join(rng.choice(WSB) for _ in range(rng.randint(0, 3)))
            p.t(b"std.trim(%s)" % L(w), trim(w))
        for _ in range(4):
            c = rng.randrange(256)
            if s and rng.random() < 0.5: c = rng.choice(s)
            p.t(b"std.contains(%s, %s)" % (v, printer.char_token(c)), c in s)
        if len(s) < 300:
            p.t(b"std.bytes(%s)" % v, Arr([Byte(c) for c in s]))
            p.src += b"let it%d = [] for c in std.iter(%s) do std.push(it%d, c) end\n" % (p.n, v, p.n)
            p.t(b"it%d" % p.n, Arr([Byte(c) for c in s]))
        o = rs(rng)
        p.t(b"%s ++ %s" % (v, L(o)), s + o); p.t(b"%s ++ %s ++ %s" % (L(o), v, v), o + s + s)
        p.t(b"%s == %s" % (v, L(s)), True); p.t(v, s)      # unchanged after all that
        p.t(b"[%s < %s, %s >= %s, %s == %s]" % (v, L(o), v, L(o), v, L(o)), Arr([s < o, s >= o, s == o]))
    return p.run("string_results")


def lit_int(i):
    if i == I64_MIN: return b"(-9223372036854775807 - 1)"
    return b"(%d)" % i if i < 0 else b"%d" % i


# ------------------------------------------------------------------ regular expressions
def rx(rng, d=0):
    """Random pattern valid in both syntaxes, without look-around or back-references."""
    k = rng.random()
    if d > 3 or k < 0.35: return rng.choice(["a", "b", "c", "ab", "x", "0", "\\.", "\\$", "-", " "])
    if k < 0.45: return rng.choice(["[ab]", "[^a]", "[a-c]", "[0-9]", "[^0-9 ]", "[x\\]-]", "[[ab]".replace("[[", "[")])
    if k < 0.50: return "."
    if k < 0.55: return rng.choice(["[0-9]", "[a-zA-Z0-9_]", "[ \\t]"])
    if k < 0.68: return rx(rng, d + 1) + rx(rng, d + 1)
    if k < 0.78: return "(" + rx(rng, d + 1) + "|" + rx(rng, d + 1) + ")"
    if k < 0.84: return "(?:" + rx(rng, d + 1) + ")"
    inner = rx(rng, d + 1)
    if re.compile(inner).match(""): return inner       # engines differ in repeated empty matches
    if len(inner) > 1 and not (inner.startswith("[") and inner.count("[") == 1 and inner.endswith("]")): inner = "(?:" + inner + ")"
    return inner + rng.choice(["*", "+", "?", "*?", "+?", "{2}", "{1,2}", "{0,3}"])


def find_all(pat, s):
    out = []; pos = 0; last = None
    while pos <= len(s):
        m = pat.search(s, pos)
        if not m: break
        if m.start() == m.end() and m.end() == last:
            pos = pos + 1
            continue
        out.append(m); last = m.end(); pos = m.end()
    return out


class Slow(Exception):
    pass


def regexes(seed):
    """Python's backtracking may take exponential time on patterns that are linear for the interpreter: such cases are given up."""
    import signal
    def ring(*_): raise Slow()
    old = signal.signal(signal.SIGALRM, ring); signal.alarm(5)
    try: p = regex_prog(seed)
    except Slow: return {"ok": True, "evals": 0, "stats": {"oracle_too_slow": 1}}
    finally: signal.alarm(0); signal.signal(signal.SIGALRM, old)
    return p.run("regex_results")


def regex_prog(seed):
    rng = random.Random(seed)
    p = Prog()
    for j in range(12):
        t = rx(rng)
        if rng.random() < 0.2: t = "^" + t
        if rng.random() < 0.2: t = t + "$"
        try: pat = re.compile(t.encode(), re.ASCII)
        except re.error: continue
        if t.endswith("$") and not t.endswith("\\$"): pat = re.compile(t[:-1].encode() + b"\\Z")
        p.src += b"let r%d = std.regex(%s)\n" % (j, L(t.encode()))
        for _ in range(5):
            n = rng.choice([0, 1, 2, 4, 8, 20, 20, rng.choice([70, 150, 400])])
            s = bytes(rng.choice(b"aabbc0x.- $]") for _ in range(n))
            p.t(b"r%d.match(%s)" % (j, L(s)), bool(pat.search(s)))
            ms = find_all(pat, s)
            pieces = []; at = 0
            for m in ms: pieces.append(s[at:m.start()]); at = m.end()
            pieces.append(s[at:])
            p.t(b"r%d.split(%s)" % (j, L(s)), Arr(pieces))
            rep = rng.choice([b"", b"-", b"<>", b"$$", b"[${0}]", b"a"])
            exp = bytearray(); at = 0
            for m in ms:
                exp += s[at:m.start()]
                exp += {b"$$": b"$", b"[${0}]": b"[" + m.group(0) + b"]"}.get(rep, rep)
                at = m.end()
            exp += s[at:]
            p.t(b"r%d.replace(%s, %s)" % (j, L(s), L(rep)), bytes(exp))
    # literals of arbitrary bytes around ASCII patterns
    for j in range(6):
        lit_ = rng.choice([b"ab", b"a", b"00", b"x-"])
        s = b"".join(rng.choice([lit_, b"\xff", b"\x00", b"\xc3", b"a", b"\n"]) for _ in range(rng.randint(0, 12)))
        p.src += b"let q%d = std.regex(%s)\n" % (j, L(lit_))
        p.t(b"q%d.match(%s)" % (j, L(s)), lit_ in s); p.t(b"q%d.split(%s)" % (j, L(s)), Arr(s.split(lit_))); p.t(b"q%d.replace(%s, \"Z\")" % (j, L(s)), s.replace(lit_, b"Z"))
    for bad in [b"(", b"[a", b"*", b"a{2", b"(?P<", b"\\", b"\xff", b"a{99999999}"]:
        p.t(b"std.type(std.regex(%s))" % L(bad), b"error" if bad != b"a{2" else b"error")
    return p


def huge(seed):
    rng = random.Random(seed)
    p = Prog()
    n = rng.choice([100000, 1 << 20])
    unit = rs(rng, n=rng.choice([1, 7, 64]))
    reps = n // max(1, len(unit))
    p.src += b"let big = %s\nwhile std.len(big) < %d do big = big ++ big end\nlet s = std.substr(big, 0, %d)\n" % (L(unit), len(unit) * reps, len(unit) * reps)
    s = unit * reps
    p.t(b"std.len(s)", len(s))
    import hashlib
    for _ in range(10):
        i = rng.randrange(len(s)); p.t(b"s[%d]" % i, Byte(s[i]))
        k = rng.randint(0, min(50, len(s) - i)); p.t(b"std.substr(s, %d, %d)" % (i, k), s[i:i + k])
    sep = unit[:1]
    p.t(b"std.len(std.split(s, %s))" % L(sep), len(s.split(sep)))
    p.t(b"std.len(std.replace(s, %s, \"xyz\"))" % L(sep), len(s.replace(sep, b"xyz")))
    p.t(b"std.replace(s, %s, %s) == s" % (L(unit), L(unit)), True)
    p.t(b"std.len(std.trim(s ++ \"\\n\\n\"))", len(trim(s)) if not s.strip() or s[:1] not in b"\t\n\x0b\x0c\r \x85\xc2\xe1\xe2\xe3" else len(trim(s)))
    p.src += b"let re = std.regex(%s)\nlet rs = %s\nwhile std.len(rs) < %d do rs = rs ++ rs end\n" % (L(b"[ab]x"), L(b"axbxcx-"), n // 10)
    k = 7
    while k < n // 10: k *= 2
    t = b"axbxcx-" * (k // 7)
    p.t(b"std.len(re.split(rs))", len(re.split(b"[ab]x", t)))
    p.t(b"re.replace(rs, \"Q\") == %s" % b"std.replace(std.replace(rs, \"ax\", \"Q\"), \"bx\", \"Q\")", True)
    p.t(b"std.len(re.replace(rs, \"Q\"))", len(re.sub(b"[ab]x", b"Q", t)))
    p.src += b"let re1 = std.regex(\"x\")\n"
    p.t(b"std.len(re1.replace(rs, \"\"))", len(t.replace(b"x", b"")))
    end = bytes([next(b for b in range(33, 256) if b not in s)])
    p.src += b"let f = s ++ %s ++ std.substr(s, 0, %d)\n" % (L(end), len(unit))
    full = s + end + s[:len(unit)]
    p.t(b"std.contains(f, %s[0])" % L(end), True)
    p.t(b"std.contains(s, %s[0])" % L(end), False)
    p.t(b"std.len(f)", len(full))
    p.t(b"f[%d]" % len(s), Byte(end[0]))
    p.t(b"std.split(f, %s)[1]" % L(end), full.split(end)[1])
    p.t(b"std.len(std.split(f, %s)[0])" % L(end), len(s))
    p.t(b"std.substr(std.replace(f, %s, \"<>\"), %d, 2)" % (L(end), len(s)), b"<>")
    p.t(b"std.len(std.regex(%s).split(f))" % L(b"\\x{%02x}" % end[0] if end[0] < 128 else b"(?-u:\\x%02x)" % end[0]), 2) if end[0] < 128 else None
    p.t(b"(function () let n = 0 let c = nil for x in std.iter(f) do n = n + 1 if x == %s[0] then c = n end end [n, c] end)()" % L(end), Arr([len(full), len(s) + 1])) if len(s) <= 100000 else None
    p.t(b"std.len(std.bytes(f))", len(full))
    p.t(b"std.len(f ++ f)", 2 * len(full))
    p.t(b"(f ++ f)[%d]" % (2 * len(full) - 1), Byte(full[-1]))
    p.t(b"f == f ++ \"\"", True)
    p.t(b"f ++ \"a\" == f ++ \"b\"", False)
    p.t(b"f ++ \"a\" < f ++ \"b\"", True)
    p.t(b"std.substr(s, 0, %d)" % (len(s) + 1), None)
    p.t(b"std.substr(s, %d, 0)" % len(s), b"")
    return p.run("huge_results", timeout=120)


def run(c):
    c.rule = ("random byte strings (all 256 bytes, few symbols, UTF-8 fragments, up to 1 MiB) through every string function with random patterns, indices and slices, "
              "and random regular expressions on random texts, against Python's bytes and re; one evaluation per compared result, distinct by program")
    c.map(strings, ["str/%d/%d" % (c.seed, i) for i in range(c.n(400, 8000))], cap=c.cap(90, 1200))
    if c.viol: return
    c.map(regexes, ["rx/%d/%d" % (c.seed, i) for i in range(c.n(300, 6000))], cap=c.cap(90, 1200))
    if c.viol: return
    c.map(huge, ["huge/%d/%d" % (c.seed, i) for i in range(c.n(10, 80))], cap=c.cap(60, 600))
