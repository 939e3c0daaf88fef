"""C09: conversions, encodings and the text form of values."""
import base64, json, math, random, re, struct
from engine import common, diff, printer, vals, stdmodel
from engine.lang import *
from .c08 import L, lit_int


class Ask:
    """A program of questions, each answer judged by its own predicate."""
    def __init__(self): self.src = bytearray(diff.HEAD); self.qs = []
    def q(self, text, judge):
        """judge: value -> None or what is wrong with it."""
        self.src += b'T("%d", ' % len(self.qs) + text + b")\n"
        self.qs.append((text, judge))
    def eq(self, text, v):
        want = vals.ident(v)
        self.q(text, lambda got: None if vals.ident(got) == want else "expected %s" % want[:300])
    def run(self, what, timeout=60):
        r = common.hush(bytes(self.src), timeout=timeout)
        if r.timeout and not r.stuck: return {"ok": True, "inconclusive": "watchdog"}
        res = {"ok": True, "evals": len(self.qs), "distinct": [t for t, _ in self.qs], "stats": {what: len(self.qs)}}
        lines = norm_output(r.out).split(b"\n")[:-1]
        bad = None
        for i, (text, judge) in enumerate(self.qs):
            if i >= len(lines): bad = "no answer to %r" % text[:400]; break
            tag, _, v = lines[i].partition(b" ")
            try:
                if tag != b"%d" % i: raise ValueError("tag %r" % tag)
                w = judge(vals.parse(v))
            except (ValueError, IndexError, AttributeError, TypeError) as e: w = "unreadable or mistyped answer (%s)" % e
            if w: bad = "%s gives %s: %s" % (text[:400].decode("utf-8", "replace"), v[:400].decode("utf-8", "replace"), w); break
        if not bad and r.status != 0: bad = "status %s" % r.status
        if bad:
            res.update(ok=False, desc="%s: %s %s" % (what, bad, r.err.decode("utf-8", "replace")[:300]),
                       files={"program.hsh": bytes(self.src), "observed.txt": r.out, "stderr.txt": r.err})
        return res


# ------------------------------------------------------------------ JSON
TEXTS = ["", "a", "key", "caf\u00e9", "\u20ac", "\u65e5\u672c", "\U0001f600", "\"", "\\", "/", "\n\r\t\b\f", "\x00", "\x01\x1f\x7f", "\u2028", "null", "1", "a b", "\ufffd", "x" * 200, "</script>", "\u0080", "[", "}", "\\u0041"]


def jtext(r):
    if r.random() < 0.7: return r.choice(TEXTS)
    return "".join(r.choice(TEXTS[:20]) for _ in range(r.randint(0, 4)))


def jval(r, d=0):
    k = r.random()
    if d > 4 or k < 0.5:
        k = r.random()
        if k < 0.1: return None
        if k < 0.25: return r.random() < 0.5
        if k < 0.5: return r.choice(vals.INTS) if r.random() < 0.7 else r.randint(-10 ** 6, 10 ** 6)
        if k < 0.7:
            if r.random() < 0.4:
                f = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
                return f if math.isfinite(f) else 0.5
            return r.choice([f for f in vals.FLOATS if math.isfinite(f)] + [1.5, 1e-7, 1e22, 123456789.123, 2.0 ** 63, -2.0 ** 63, 1e15, 1e17])
        return jtext(r).encode()
    if k < 0.75: return Arr([jval(r, d + 1) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))])
    x = Dct()
    for _ in range(r.choice([0, 1, 1, 2, 3, 6])): x.set(jtext(r).encode(), jval(r, d + 1))
    return x


def ulp_eq(a, b):
    if a == b: return math.copysign(1, a) == math.copysign(1, b)
    if a == 0 or b == 0 or (a < 0) != (b < 0): return False
    return abs(a - b) <= 4 * math.ulp(b)


def near(a, b):
    """Equal, floats within a few units in the last place."""
    ta, tb = tname(a), tname(b)
    if ta != tb: return False
    if ta == "float": return ulp_eq(a, b)
    if ta == "array": return len(a.a) == len(b.a) and all(near(x, y) for x, y in zip(a.a, b.a))
    if ta == "dict": return a.d.keys() == b.d.keys() and all(near(a.d[k][1], b.d[k][1]) for k in a.d)
    return vals.ident(a) == vals.ident(b)


def from_py(x):
    if isinstance(x, str): return x.encode("utf-8", "surrogatepass")
    if isinstance(x, list): return Arr([from_py(y) for y in x])
    if isinstance(x, dict):
        d = Dct()
        for k, v in x.items(): d.set(k.encode("utf-8", "surrogatepass"), from_py(v))
        return d
    return x


def to_py(v):
    t = tname(v)
    if t == "string": return v.decode()
    if t == "array": return [to_py(x) for x in v.a]
    if t == "dict": return {k.decode(): to_py(x) for k, x in v.d.values()}
    return v


class Unfit(Exception): pass


def strict(text):
    """Python's reading of a JSON text: value, or ValueError; Unfit where implementations legitimately differ."""
    def const(s): raise ValueError(s)
    def pint(s):
        i = int(s)
        if s == "-0" or not I64_MIN <= i <= I64_MAX: raise Unfit()
        return i
    def pfloat(s):
        f = float(s)
        if not math.isfinite(f): raise Unfit()
        return f
    try: s = text.decode("utf-8")
    except UnicodeDecodeError: raise ValueError("not UTF-8")
    if s.startswith("\ufeff"): raise Unfit()
    if re.search(r"\\u[dD][89a-fA-F]", s) or any(0xd800 <= ord(c) < 0xe000 for c in s): raise Unfit()
    d = 0
    for c in s:
        d += c in "[{"
    if d > 100: raise Unfit()
    if s != s.strip() and s.strip(" \t\n\r") != s.strip(): raise Unfit()
    v = json.JSONDecoder(parse_constant=const, parse_int=pint, parse_float=pfloat, strict=True).decode(s.strip(" \t\n\r"))
    return from_py(v)


def dump(r, v):
    """A random valid spelling of v."""
    def sp(): return r.choice(["", "", " ", "\n", "\t", "\r\n  "])
    t = tname(v)
    if t == "string":
        out = '"'
        for c in v.decode():
            o = ord(c)
            k = r.random()
            if c in '"\\' or o < 32:
                short = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f"}.get(c)
                out += short if short and k < 0.7 else "\\u%04x" % o
            elif c == "/" and k < 0.5: out += "\\/"
            elif k < 0.2:
                if o > 0xffff: out += "\\u%04x\\u%04X" % (0xd800 + ((o - 0x10000) >> 10), 0xdc00 + ((o - 0x10000) & 0x3ff))
                else: out += ("\\u%04x" if k < 0.1 else "\\u%04X") % o
            else: out += c
        return out + '"'
    if t == "array": return "[" + sp() + (sp() + "," + sp()).join(dump(r, x) for x in v.a) + sp() + "]"
    if t == "dict":
        items = list(v.d.values()); r.shuffle(items)
        parts = []
        for k, x in items:
            if r.random() < 0.1: parts.append(dump(r, k) + ":" + r.choice(["0", "null", "[]"]))      # overridden below
            parts.append(dump(r, k) + sp() + ":" + sp() + dump(r, x))
        return "{" + sp() + (sp() + "," + sp()).join(parts) + sp() + "}"
    if t == "float":
        s = repr(v)
        if r.random() < 0.3: s = s.replace("e", "E")
        if r.random() < 0.2 and "e" not in s and "E" not in s: s += "e0"
        return s
    return json.dumps(v)


def has_float(v):
    t = tname(v)
    return t == "float" or t == "array" and any(map(has_float, v.a)) or t == "dict" and any(has_float(x) for _, x in v.d.values())


def jsons(seed):
    r = random.Random(seed); a = Ask()
    for j in range(14):
        v = jval(r)
        e = vals.src(vals.build(v, r))
        a.src += b"let v%d = " % j + e + b"\nlet t%d = std.json.encode(v%d)\n" % (j, j)
        def judge(got, v=v):
            if tname(got) != "string": return "not a string"
            try: w = strict(got)
            except Unfit: return None if re.search(rb"-0\b", got) else None
            except ValueError as x: return "not JSON: %s" % x
            return None if near(w, v) else "JSON readers read %s, the value is %s" % (vals.ident(w)[:300], vals.ident(v)[:300])
        a.q(b"t%d" % j, judge)
        a.q(b"std.json.decode(t%d)" % j, lambda got, v=v: None if near(got, v) else "expected %s" % vals.ident(v)[:300])
        if not has_float(v): a.eq(b"std.json.decode(t%d) == v%d" % (j, j), True)
        a.q(b"v%d" % j, lambda got, v=v: None if near(got, v) else "the value changed")
        txt = dump(r, v).encode()
        txt = r.choice([b"", b" ", b"\n\t"]) + txt + r.choice([b"", b"\n", b" \r\n"])
        a.q(b"std.json.decode(%s)" % L(txt), lambda got, v=v: None if near(got, v) else "expected %s" % vals.ident(v)[:300])
        # damaged texts
        for _ in range(8):
            b = bytearray(dump(r, jval(r, r.choice([1, 3, 5]))).encode())
            for _ in range(r.choice([1, 1, 2])):
                k = r.random(); i = r.randrange(len(b)) if b else 0
                if k < 0.35 and b: del b[i]
                elif k < 0.5: b = b[:i]
                elif k < 0.8: b[i:i] = r.choice([b",", b"]", b"}", b"[", b"{", b":", b'"', b"\\", b"0", b"1", b"-", b"+", b".", b"e", b" ", b"tru", b"null", b"\xff", b"\x00", b"\n", b"'", b"//", b"\\x"])
                else: b[i:i + 1] = bytes([r.randrange(256)])
            b = bytes(b)
            try: want = strict(b)
            except Unfit: continue
            except ValueError: want = None; bad = True
            else: bad = False
            if bad: a.q(b"std.json.decode(%s)" % L(b), lambda got, b=b: None if isinstance(got, Err) and got.ctx == b else "malformed: expected an error carrying the input")
            else: a.q(b"std.json.decode(%s)" % L(b), lambda got, w=want: None if near(got, w) else "expected %s" % vals.ident(w)[:300])
    # what JSON cannot express is refused
    for t in [b"function () end", b'std.error("x", 1)', b"[1, function () end]", b"@[a: std.len]", b"(function () let d = @[] d[1] = 2 d end)()", b'[[std.error("", nil)]]', b"(function () let d = @[] d[nil] = 2 d end)()"]:
        a.eq(b"std.catch(function () std.json.encode(%s) end)" % t, Err("!value", b"panic"))
    d = r.randint(1, 100)
    a.eq(b"std.json.decode(%s)" % L(b"[" * d + b"7" + b"]" * d), nested(d, 7))
    return a.run("json_answers")


def nested(d, v):
    for _ in range(d): v = Arr([v])
    return v


# ------------------------------------------------------------------ hex and base64
def codecs(seed):
    r = random.Random(seed); a = Ask()
    def err(b): return lambda got: None if isinstance(got, Err) and got.ctx == b else "malformed: expected an error carrying the input"
    for j in range(20):
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 63, 64, 65, 255, 256, 1000])
        s = bytes(r.randrange(256) for _ in range(n)) if r.random() < 0.8 else bytes([r.choice([0, 255, 0x80, 61])]) * n
        a.src += b"let s%d = " % j + L(s) + b"\n"
        for nm, enc in ((b"hex", s.hex().encode()), (b"base64", base64.b64encode(s))):
            a.eq(b"std.%s.encode(s%d)" % (nm, j), enc)
            a.eq(b"std.%s.decode(std.%s.encode(s%d)) == s%d" % (nm, nm, j, j), True)
            a.eq(b"std.%s.decode(%s)" % (nm, L(enc)), s)
        h = s.hex()
        mixed = "".join(c.upper() if r.random() < 0.5 else c for c in h).encode()
        a.eq(b"std.hex.decode(%s)" % L(mixed), s)
        # damaged
        b = bytearray(mixed or b"00"); i = r.randrange(len(b))
        k = r.random()
        if k < 0.4: del b[i]
        elif k < 0.7: b[i] = r.choice([c for c in range(256) if c not in b"0123456789abcdefABCDEF"])
        elif k < 0.8: b.insert(i, r.choice(b"0aF"))
        else: b[i:i] = r.choice([b" ", b"\n", b"  ", b"\r\n", b":", b"0x", b"\t", b"-", b"_", b"\0"]) if r.random() < 0.6 else b""; b = b if bytes(b) != (mixed or b"00") else bytearray(r.choice([b"0x", b" ", b"\n ", b"h'"]) + bytes(b)) if r.random() < 0.5 else b + r.choice([b" ", b"\n", b"\r\n", b"h", b"\0\0"])
        a.q(b"std.hex.decode(%s)" % L(bytes(b)), err(bytes(b)))
        e = bytearray(base64.b64encode(s or b"x")); i = r.randrange(len(e))
        k = r.random()
        if k < 0.5: e[i] = r.choice([c for c in range(256) if c not in b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/="])
        elif k < 0.8: e += b"A"                          # length 1 modulo 4
        elif k < 0.85: e = bytearray(b"=") + e
        elif k < 0.95: i = r.choice([0, i, len(e)]); e[i:i] = r.choice([b" ", b"\n", b"\r\n", b"\t", b"    ", b"-", b"_", b"-_", b"\0", b",", b"====", b":"])
        else: e = bytearray(r.choice([b"YR==", b"YWF=", b"YQ==YQ==", b"Y===", b"====", b"=", b"YQ=a", b"Y=Q=", b"/w==\n", b"_w==", b"-w=="]))
        a.q(b"std.base64.decode(%s)" % L(bytes(e)), err(bytes(e)))
    return a.run("codec_answers")


# ------------------------------------------------------------------ numbers and text
def numbers(seed):
    r = random.Random(seed); a = Ask()
    m = {}
    t = stdmodel.table(None)
    def model(name, *args):
        try: return t[name](list(args), None)
        except Panic as p: return Err("!" + p.kind, b"panic")
    def ask(name, v):
        a.eq(b"std.catch(function () std.%s(%s) end)" % (name.encode(), vals.src(lit(v))), model(name, v))
    for j in range(25):
        i = r.choice(vals.INTS) if r.random() < 0.5 else r.getrandbits(r.randint(1, 63)) * r.choice([1, -1])
        a.eq(b"std.int(std.to_string(%s))" % vals.src(lit(i)), i)
        a.eq(b"std.to_string(%s)" % vals.src(lit(i)), b"%d" % i)
        ask("float", i)
        f = r.choice(vals.FLOATS) if r.random() < 0.3 else struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
        if f != f: f = math.nan
        if r.random() < 0.3: f = float(r.choice(["%d.%d" % (r.getrandbits(20), r.getrandbits(20)), "%de%d" % (r.randint(1, 99), r.randint(-20, 25)), "0.%05d" % r.randint(0, 99999)]))
        a.eq(b"std.float(std.to_string(%s))" % vals.src(lit(f)), f)
        a.eq(b"std.to_string(%s)" % vals.src(lit(f)), rust_float(f).encode())
        ask("int", f)
        g = float(r.choice([I64_MAX, I64_MIN, 1 << 53, -(1 << 62), 0])) + r.choice([0.0, 0.5, -0.5, 1.0, -1025.0, 0.999])
        ask("int", g)
        # texts that are or are not numbers
        base = r.choice([b"%d" % i, repr(f).encode() if f == f else b"nan", b"12", b"-7", b"+5", b"007", b"1.5", b".5", b"5.", b"1e5", b"1E-3", b"inf", b"-inf", b"NaN", b"infinity", b"-0", b"9223372036854775808", b"-9223372036854775808", b"-9223372036854775809", b"1e400", b"99999999999999999999999"])
        if r.random() < 0.6:
            k = r.randrange(len(base) + 1)
            base = base[:k] + r.choice([b" ", b"x", b"-", b"+", b".", b"e", b"_", b"\n", b"\x00", b",", b"0x", b"\xff", b"\xc2\xa0", b"", b"d", b"%"]) + base[k:]
        if r.random() < 0.05: base = r.choice([b"", b"-", b"+", b".", b"e", b"--1", b"+-1", b"0x10", b"1 2", b"true", b"nil", b"1e", b"1e+", b"\xd9\xa1"])
        ask("int", base); ask("float", base)
    for v in [None, True, False, Byte(53), Arr([1]), Dct(), Err(b"x", 1)]:
        for nm in (b"int", b"float"):
            a.eq(b"std.catch(function () std.%s(%s) end)" % (nm, vals.src(vals.build(v))), Err("!type", b"panic"))
    a.eq(b"std.to_string(true)", b"true"); a.eq(b"std.to_string(false)", b"false"); a.eq(b"std.to_string(nil)", b"nil")
    for _ in range(4):
        s = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 40])))
        a.eq(b"std.to_string(%s)" % L(s), s)
        a.eq(b"std.bytes(%s)" % L(s), Arr([Byte(c) for c in s]))
    return a.run("number_answers")


# ------------------------------------------------------------------ text form
PT = [b"", b"a", b"b c", b"q\"q", b"it's", b"back\\slash", b"nl\n", b"tab\t", b"caf\xc3\xa9", b"\xe2\x82\xac", b"\xe6\x97\xa5", b"\xf0\x9f\x98\x80", b"nil", b"[ 1 ]", b"cr\r"]


def pval(r, d=0, wide=False):
    k = r.random()
    if d > 3 or k < 0.5:
        v = vals.scalar(r, nan=0.05)
        if isinstance(v, bytes): v = r.choice(PT)
        if isinstance(v, Byte) and d: v = Byte(r.choice([48, 65, 97, 126, 32]) if not wide else r.randrange(256))
        return v
    if k < 0.75: return Arr([pval(r, d + 1, wide) for _ in range(r.choice([0, 1, 2, 3, 6]))])
    if k < 0.92:
        x = Dct()
        for _ in range(r.choice([0, 1, 1]) if not wide else r.randrange(5)):
            key = pval(r, d + 2, wide)
            if vals.has_nan(key): key = b"nan"
            x.set(key, pval(r, d + 1, wide))
        return x
    return Err(r.choice(PT), pval(r, d + 1, wide))


def prints(seed):
    """std.print, std.println and std.to_string: exact text, or consistency for wide dicts."""
    r = random.Random(seed)
    src = bytearray(); exp = bytearray(); n = 0
    for j in range(25):
        wide = r.random() < 0.2
        vs = [pval(r, 0, wide) for _ in range(r.choice([0, 1, 1, 1, 2, 3, 5]))]
        if wide: vs = vs[:1]
        names = []
        for i, v in enumerate(vs):
            src += b"let a%d_%d = " % (j, i) + vals.src(vals.build(v, r)) + b"\n"
            names.append(b"a%d_%d" % (j, i))
        nl = r.random() < 0.6
        src += b"std.%s(%s) std.print(\"\\n#\\n\")\n" % (b"println" if nl else b"print", b", ".join(names))
        if wide and vs:
            if isinstance(vs[0], Byte): exp += b"\x00SKIP"
            else: exp += b"\x00SAME"
            src += b"std.print(std.to_string(%s)) std.print(\"\\n#\\n\")\n" % names[0]
            exp += (b"%d" % nl) + b"\n#\n"
        else:
            exp += b"\t".join(stdmodel.raw(v) for v in vs) + (b"\n" if nl else b"") + b"\n#\n"
            for nm, v in zip(names, vs):
                src += b"std.print(std.to_string(%s)) std.print(\"\\n#\\n\")\n" % nm
                exp += (v if isinstance(v, bytes) else stdmodel.show(v).encode()) + b"\n#\n"
        n += 1
    # functions are rendered by their name or position
    src += b"let fun = function () end std.println(fun) std.print(\"#\\n\") std.print(std.to_string(fun)) std.print(\"#\\n\") std.println([ std.len ], std.len)\n"
    r_ = common.hush(bytes(src))
    if r_.timeout and not r_.stuck: return {"ok": True, "inconclusive": "watchdog"}
    got = r_.out.split(b"\n#\n"); want = bytes(exp).split(b"\n#\n")
    bad = None
    i = 0
    for w in want[:-1]:
        if i >= len(got) - 1: bad = "output ends early"; break
        if w.startswith((b"\x00SAME", b"\x00SKIP")):
            g = got[i]
            if w.endswith(b"1"):
                if not g.endswith(b"\n"): bad = "println without newline: %r" % g; break
                g = g[:-1]
            if w.startswith(b"\x00SAME") and g != got[i + 1]: bad = "print gives %r but to_string %r" % (g[:300], got[i + 1][:300]); break
            i += 2
        else:
            if got[i] != w: bad = "expected %r, printed %r" % (w[:400], got[i][:400]); break
            i += 1
    if not bad:
        m = re.fullmatch(rb"(function<.*t\.hsh.*>)\n#\n(.*)#\n\[ std\.len \]\tstd\.len\n", got[-1] if len(got) > i else b"")
        if r_.status != 0: bad = "status %s: %r" % (r_.status, r_.err[:300])
        elif not m or m.group(1) != m.group(2): 
            tail = b"\n#\n".join(got[i:])
            m = re.fullmatch(rb"(function<.*t\.hsh.*>)\n#\n(.*)#\n\[ std\.len \]\tstd\.len\n", tail)
            if not m or m.group(1) != m.group(2): bad = "functions are rendered as %r" % tail[:300]
    return {"ok": bad is None, "evals": n, "distinct": [bytes(exp)], "stats": {"printed_values": n}, "desc": bad,
            "files": {"program.hsh": bytes(src), "observed.txt": r_.out, "expected.txt": bytes(exp)}}


def bigs(seed):
    """Large inputs to every conversion."""
    r = random.Random(seed); a = Ask()
    def size(top=5.0): return int(10 ** r.uniform(2.5, top)) if r.random() < 0.8 else r.choice([1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537])
    for j in range(2):
        n = size()
        k = r.choice(["codec", "codec", "jstr", "jarr", "jobj", "text", "digits", "bytes"])
        if k in ("codec", "bytes"):
            s = bytes(r.randrange(256) for _ in range(min(n, 2000))); s = (s * (n // len(s) + 1))[:n]
            if k == "bytes":
                s = s[:20000]
                a.src += b"let s%d = std.hex.decode(\"%s\")\n" % (j, s.hex().encode())
                a.eq(b"std.bytes(s%d)" % j, Arr([Byte(c) for c in s])); a.eq(b"std.to_string(s%d)" % j, s)
                continue
            a.src += b"let s%d = " % j + L(s) + b"\n"
            for nm, enc in ((b"hex", s.hex().encode()), (b"base64", base64.b64encode(s))):
                a.eq(b"std.%s.encode(s%d)" % (nm, j), enc); a.eq(b"std.%s.decode(std.%s.encode(s%d)) == s%d" % (nm, nm, j, j), True)
                e = bytearray(enc); e[r.randrange(len(e))] = r.choice(b" \n!$\x80"); e = bytes(e)
                a.q(b"std.%s.decode(%s)" % (nm, L(e)), lambda got, b=e: None if isinstance(got, Err) and got.ctx == b else "malformed: expected an error carrying the input")
            continue
        if k == "digits":
            z = b"0" * n
            a.eq(b"std.int(%s)" % L(z + b"12"), 12); a.eq(b"std.int(%s)" % L(b"-" + z + b"7"), -7)
            d = bytes(r.choice(b"0123456789") for _ in range(min(n, 2000)))
            t = r.choice([b"0." + d, d[:200] + b"." + d, b"1" + b"0" * 200 + b"e-190", d[:20] + b"." + z + b"1", z + b"2.5" + z])
            a.eq(b"std.float(%s)" % L(t), float(t))
            continue
        if k == "jstr": v = ("".join(jtext(r) for _ in range(50)) * (n // 200 + 1))[:n].encode()
        elif k == "jarr": v = Arr([jval(r, 4) for _ in range(min(n, 3000))])
        elif k == "jobj":
            v = Dct()
            for i in range(min(n, 3000)): v.set(r.choice([b"k%d", b"%d", b"key \xc3\xa9 %d"]) % i, jval(r, 4))
        else: v = Arr([r.choice([1, -5, None, True, b"x"]) for _ in range(min(n, 5000))])
        a.src += b"let v%d = " % j + vals.src(vals.build(v)) + b"\n"
        if k == "text":
            a.eq(b"std.to_string(v%d)" % j, stdmodel.show(v).encode())
            continue
        def judge(got, v=v):
            try: w = strict0(got)
            except Unfit: return None
            except ValueError as x: return "not JSON: %s" % x
            return None if near(w, v) else "JSON readers read another value"
        a.q(b"std.json.encode(v%d)" % j, judge)
        a.q(b"std.json.decode(std.json.encode(v%d))" % j, lambda got, v=v: None if near(got, v) else "the value changed")
        a.q(b"std.json.decode(%s)" % L(dump(r, v).encode()), lambda got, v=v: None if near(got, v) else "expected %s" % vals.ident(v)[:300])
        bad = json.dumps(to_py(v)).encode(); bad = bad[:r.randrange(1, len(bad))]
        if bad[:1] in b"[{\"": a.q(b"std.json.decode(%s)" % L(bad), lambda got, b=bad: None if isinstance(got, Err) and got.ctx == b else "truncated: expected an error carrying the input")
    return a.run("big_answers")


def strict0(text):
    """strict, for texts known not to nest deeply."""
    return from_py(json.JSONDecoder(parse_constant=lambda s: (_ for _ in ()).throw(ValueError(s))).decode(text.decode("utf-8")))


def json_depth(_):
    src = b"let v = 1\nfor i in std.range(0, 200, 1) do v = [v] end\nlet d = std.json.decode(std.json.encode(v))\nstd.println(if std.type(d) == \"error\" then d.description else d == v end)\n"
    r = common.hush(src)
    if r.timeout and not r.stuck: return None
    return {"fine": r.status == 0 and r.out == b"true\n", "known": r.status == 0 and r.out.startswith(b"recursion limit exceeded at line"), "desc": r.brief(), "files": {"program.hsh": src}}


def run(c):
    c.rule = ("random values, texts and byte strings through json, hex, base64, int, float, to_string, bytes, print and println, judged by Python's own codecs and the documented text form; "
              "malformed texts are damaged valid ones; inputs of up to 100 kB and 3000 elements; one evaluation per answer, distinct by question")
    n = c.n(150, 4000)
    for f, k in ((jsons, n * 2), (codecs, n), (numbers, n), (prints, n), (bigs, n * 2)):
        c.map(f, ["c09/%s/%d/%d" % (f.__name__, c.seed, i) for i in range(k)], cap=c.cap(60, 900))
        if c.viol: return
    if not c.viol: c.probe("json-depth", json_depth, None)
