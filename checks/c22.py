"""C22: every library call gives a value or a catchable panic."""
import math, os, random, re, shutil
from engine import common, cmds, diff, vals
from engine.lang import *
from . import c08
from .c12 import confirm

ANY = ("nil", "bool", "int", "float", "char", "string", "array", "dict", "function", "error")
N_, B_, I_, F_, C_, S_, A_, D_, FN, E_ = [(t,) for t in ANY]
NUM = I_ + F_

# name -> list of (argument types, result types, panics that well-typed arguments may raise)
SIG = {
    "args": [((), A_, ())], "assert": [((B_,), N_, ("assert",))], "base64.encode": [((S_,), S_, ())], "base64.decode": [((S_,), S_ + E_, ())], "bind": [((ANY, FN), FN, ())],
    "bytes": [((S_,), A_, ())], "cd": [((S_,), N_ + E_, ())], "contains": [((A_, ANY), B_, ()), ((D_, ANY), B_, ()), ((S_, C_), B_, ())], "cwd": [((), S_ + E_, ())],
    "env": [((S_,), S_ + N_, ())], "export": [((S_, S_), N_ + E_, ())], "error": [((S_, ANY), E_, ())], "float": [((NUM,), F_, ()), ((S_,), F_, ("value",))], "glob": [((S_,), A_ + E_, ())],
    "has_error": [((ANY,), B_, ())], "hex.encode": [((S_,), S_, ())], "hex.decode": [((S_,), S_ + E_, ())], "import": [((S_,), (), ("import", "io"))], "int": [((NUM,), I_, ()), ((S_,), I_, ("value",))],
    "is_empty": [((A_ + D_ + S_,), B_, ())], "iter": [((A_ + D_ + S_,), FN, ())], "json.encode": [((ANY,), S_, ("value",))], "json.decode": [((S_,), tuple(t for t in ANY if t not in ("char", "function")), ())],
    "len": [((A_ + D_ + S_,), I_, ())], "panic": [((ANY,), (), ("user",))], "pop": [((A_,), ANY, ("empty",))], "push": [((A_, ANY), N_, ())], "rand": [((), F_, ())], "randint": [((I_, I_), I_, ("value",))],
    "randseed": [((I_,), N_, ())], "range": [((NUM, NUM, NUM), FN, ())], "read": [((), S_, ("io",)), ((S_,), S_, ("io",))], "regex": [((S_,), D_ + E_, ())], "replace": [((S_, S_, S_), S_, ())],
    "sort": [((A_,), N_, ())], "split": [((S_, S_), A_, ())], "substr": [((S_, I_, I_), S_ + N_, ())], "to_string": [((ANY,), S_, ())], "trim": [((S_,), S_, ())], "type": [((ANY,), S_, ())],
    "typecheck": [((ANY, S_), ANY, ("value", "type"))], "try_typecheck": [((ANY, S_), N_ + E_, ("value",))],
    "sleep": [((I_,), N_, ("value",))], "exit": [((I_,), (), ("value",))], "catch": [((FN,), ANY, ())],
    # objects the library hands out
    "REGEX.match": [((S_,), B_, ())], "REGEX.split": [((S_,), A_, ())], "REGEX.replace": [((S_, S_), S_, ())],
    "ITER_A": [((), D_, ())], "ITER_D": [((), D_, ())], "ITER_S": [((), D_, ())], "RANGE": [((), D_, ())], "BOUND": [((ANY,), ANY, ())],
}
MUTATE = {"push", "pop", "sort"}
VARIADIC = ["print", "println"]
OBJ = (b"let REGEX = std.regex(\"[a-c]+|\")\nlet ITER_A = std.iter([1, nil])\nlet ITER_D = std.iter(@[ a: 1 ])\nlet ITER_S = std.iter(\"xy\")\nlet RANGE = std.range(0, 3, 1)\nlet BOUND = std.bind(@[ q: 1 ], function (x) [self.q, x] end)\n"
       b"let nest = function (n, v) let a = v let i = 0 while i < n do a = [a] i = i + 1 end a end\nlet dnest = function (n) let a = nil let i = 0 while i < n do a = @[ k: a ] i = i + 1 end a end\n"
       b"let rep = function (s, n) let r = s while std.len(r) < n do r = r ++ r end r end\nlet enest = function (n) let a = 1 let i = 0 while i < n do a = std.error(\"e\", a) i = i + 1 end a end\n")
STR = [b"", b"a", b"abc", b"\x00", b"a\x00b", b"\xff\xfe", b"caf\xc3\xa9", b"[", b"(", b"*", b"?", b"**", b"[a-", b"a{99999}", b"(a*)*b", b"\\", b"\\p{L}+", b"(?P<n>a)$1", b"$1${n}$$", b"[[:alpha:]]", b".", b"..", b"nil", b"int", b"string", b"function", b"byte", b"array", b"0", b"-0", b"+1", b" 1", b"1 ", b"1_0", b"0x10",
       b"9223372036854775807", b"9223372036854775808", b"-9223372036854775808", b"1e5", b"inf", b"-nan", b"NaN", b"infinity", b".5", b"5.", b"1e999", b"{}", b"[1,", b"{\"a\":1,\"a\":2}", b"[1e999]", b"[18446744073709551615]", b"\"\\ud800\"", b"\"\\u0000\"", b"nul", b"[[[[]]]]", b"{\"\":{}}", b"\xef\xbb\xbf1", b"PATH", b"HOME", b"A=B", b"=", b"no/such/thing",
       b"zz", b"0", b"0g", b"AbCdEf01", b"QUJD", b"QUI=", b"Q===", b"====", b"no\nnewline", b"\r\n", b"\t x \x0b\x0c\x85\xa0 ", b"\xe2\x80\x83x\xe2\x80\x83", b"a" * 5000, b"%s%n", b"~", b"$HOME", b"{a,b}", b"!", b"(?i)ABC", b"(?", b"\\1", b"x" * 255]
# the syntaxes the functions read: malformed and extreme texts of each
TEXT = {
    "glob": [b"a**", b"**a", b"***", b"x/**y", b"**/**", b"a/**", b"**/", b"**", b"[", b"[!", b"[]", b"[]]", b"[!]", b"[a", b"a[", b"[a-", b"[-a", b"[z-a]", b"[a-z", b"[[:alpha:]]", b"\\*", b"*/*/*", b"?", b"??", b"f[12]", b"[!f]*", b"./*", b"../*", b"/", b"//", b"", b".", b"~", b"{f1,f2}", b"f1/", b"f1/x", b"*" * 300, b"a/" * 100 + b"*", b"\x00", b"*\x00", b"f\n*", b"\xc3\xa9", b"[\xc3\xa9]", b"**/f1", b"f1/**/x"],
    "regex": [b"(", b")", b"(?", b"(?P", b"(?P<", b"(?P<a", b"(?P<a>", b"(?P<1>x)", b"(?P<a>x)(?P<a>y)", b"[", b"[]", b"[^]", b"[^", b"[z-a]", b"[a-", b"\\", b"\\x", b"\\x{", b"\\x{110000}", b"\\p", b"\\p{", b"\\p{Nope}", b"\\1", b"\\8", b"*", b"+", b"?", b"**", b"a**", b"a{", b"a{2", b"a{2,", b"a{2,1}", b"a{99999}", b"a{1000}{1000}", b"(a{50}){50}", b"|", b"||", b"^*", b"$*", b"\\b*", b"(?:", b"(?=a)", b"(?<=a)", b"(?i", b"(?z)", b"(?-u)\xff", b"\xff", b"[\xff]", b"(?-u:\\xff)", b"(?s).", b"(?x) a # b", b"\x00", b"[[:nope:]]", b"(" * 300 + b")" * 300, b"(" * 3000, b"[" * 300, b"a|" * 2000, b"\\pL" * 20, b".*" * 50, b"(a*)*" * 10],
    "json.decode": [b"", b" ", b"{", b"}", b"[", b"]", b"[,]", b"[1,]", b"{\"a\"}", b"{\"a\":}", b"{1:2}", b"{\"a\":1,}", b"nul", b"nulll", b"null null", b"tru", b"+1", b"01", b"-", b"-0", b"1.", b".1", b"1e", b"1e+", b"1e999", b"-1e999", b"1e-999", b"9223372036854775807", b"9223372036854775808", b"-9223372036854775808", b"-9223372036854775809", b"18446744073709551615", b"18446744073709551616", b"1" * 400, b"0." + b"0" * 400 + b"1", b"\"", b"\"\\", b"\"\\u", b"\"\\u12\"", b"\"\\ud800\"", b"\"\\udc00\\ud800\"", b"\"\\ud83d\\ude00\"", b"\"\xff\"", b"\"\x00\"", b"\"\n\"", b"\xef\xbb\xbf{}", b"\xff", b"[" * 100, b"[" * 127 + b"]" * 127, b"[" * 128 + b"]" * 128, b"{\"a\":" * 100, b"'a'", b"NaN", b"Infinity", b"/*x*/1", b"1//", b"[1 2]", b"{\"a\":1 \"b\":2}", b"{\"\":{\"\":[]}}"],
    "int": [b"", b" ", b"+", b"-", b"+-1", b"--1", b"0x1", b"1_000", b"1 000", b"1.0", b"1e3", b"\xd9\xa1", b"00000000000000000000001", b"9223372036854775807", b"9223372036854775808", b"-9223372036854775808", b"-9223372036854775809", b"1" * 100, b"\xff", b"1\x00", b"1\n"],
    "float": [b"", b" ", b"+", b"-", b".", b"e", b"1e", b"1e+", b"e5", b".e5", b"1.e5", b"0x1p3", b"1_0.0", b"1e400", b"-1e400", b"1e-400", b"1" * 400, b"0." + b"0" * 400 + b"1", b"infinit", b"nan(1)", b"\xff", b"1.0\x00", b"1,5"],
    "hex.decode": [b"0", b"zz", b"0g", b"g0", b"ABC", b"aBcD", b"\xff\xff", b"\xc3\xa9", b"0\x00", b" 00", b"00\n", b"0x00", b"00" * 5000, b"00" * 5000 + b"0"],
    "base64.decode": [b"=", b"==", b"===", b"====", b"A", b"AA", b"AAA", b"A===", b"AA=A", b"AAAA=", b"AA==AA==", b"QQ=", b"QR==", b"QUJ=", b"QUJD\n", b" QUJD", b"QU-_", b"QU+/", b"\xff\xff\xff\xff", b"\xc3\xa9==", b"A\x00==", b"QUJD" * 5000, b"QUJD" * 5000 + b"Q"],
    "export": [b"", b"=", b"A=B", b"=A", b"A\x00", b"\x00", b"\xff", b"A B", b"A" * 3000, b"A\n", b"1", b"\xc3\xa9"],
    "env": [b"", b"=", b"A=B", b"=A", b"A\x00", b"\x00", b"\xff", b"A B", b"A" * 3000, b"PATH="],
    "import": [b"", b".", b"..", b"/", b"f1", b"f1/x", b"nope", b"\x00", b"f\x00", b"\xff", b"a" * 300, b"a/" * 3000, b"/dev/null/x", b"./", b"f1\n"],
    "cd": [b"", b".", b"./", b"f1", b"f1/x", b"nope", b"\x00", b"\xff", b"a" * 300, b"a/" * 3000, b"/dev/null", b"-", b"~"],
    "typecheck": [b"", b"nil", b"bool", b"int", b"float", b"char", b"byte", b"string", b"array", b"dict", b"function", b"error", b"Int", b"int ", b" int", b"in", b"integer", b"any", b"range", b"iter", b"\xff", b"\x00", b"int\x00"],
}
TEXT["try_typecheck"] = TEXT["typecheck"]
for _n in ("REGEX.replace", "replace"): TEXT[_n] = [b"", b"$", b"$$", b"$0", b"$1", b"$1a", b"${1}", b"${", b"${}", b"$n", b"${n}x", b"$99999999999999999999", b"\\1", b"$-1", b"$\xff", b"${\xff}", b"a" * 3000, b"\x00"]
for _n in ("REGEX.match", "REGEX.split", "split", "trim", "substr", "bytes"): TEXT[_n] = [b"", b"a", b"\x00", b"\xff", b"a\xffb", b"\xc3", b"\xc3\xa9", b"abc" * 2000, b"\n", b"\r\n", b"\xe2\x80\xa8", b"\xc2\xa0x\xc2\xa0", b" " * 5000]
INT = [0, 1, -1, 2, 5, 7, 255, 256, -128, 1 << 31, 1 << 32, 1 << 53, I64_MAX, I64_MIN, I64_MAX - 1, I64_MIN + 1]
FLT = ["0.0", "-0.0", "1.5", "(0.0 / 0.0)", "(1.0 / 0.0)", "(-1.0 / 0.0)", "1.0e308", "9223372036854775807.0", "-1.0e300", "0.1"]


def value(r, t, d=0):
    """An expression of the type, hostile."""
    if t == "nil": return b"nil"
    if t == "bool": return r.choice([b"true", b"false"])
    if t == "int": i = r.choice(INT) if r.random() < 0.8 else r.getrandbits(64) - (1 << 63); return c08.lit_int(i)
    if t == "float": return r.choice(FLT).encode()
    if t == "char": return b"std.bytes(%s)[0]" % c08.L(bytes([r.randrange(256)]))
    if t == "string":
        k = r.random()
        if k < 0.75: return c08.L(r.choice(STR))
        if k < 0.9: return c08.L(bytes(r.randrange(256) for _ in range(r.randint(0, 40))))
        return b"rep(%s, %d)" % (c08.L(r.choice([b"a", b"\xff", b"ab\n", b"\xc3\xa9", b"[", b"0", b"(", b"{\"a\":"])), r.choice([100, 5000, 40000]))
    if t == "array":
        k = r.random()
        if k < 0.1: return b"nest(%d, 1)" % r.choice([3, 60, 110, 150])
        if k < 0.25:
            # long and mixed, nan included
            return b"[" + b", ".join(value(r, r.choice(["nil", "bool", "int", "float", "float", "float", "char"]), 3) if r.random() < 0.7 else r.choice(FLT).encode() for _ in range(r.choice([25, 60, 150]))) + b"]"
        return b"[" + b", ".join(value(r, r.choice(ANY), d + 1) for _ in range(r.choice([0, 1, 2, 4]) if d < 3 else 0)) + b"]"
    if t == "dict":
        if r.random() < 0.1: return b"dnest(%d)" % r.choice([3, 60, 110])
        if d < 3 and r.random() < 0.3:
            return b"(function () let d = @[] " + b" ".join(b"d[%s] = %s" % (value(r, r.choice(ANY[:8] + ("error",)), 3), value(r, r.choice(ANY), d + 1)) for _ in range(r.choice([1, 3]))) + b"  d end)()"
        return b"@[ " + b", ".join(b"k%d: " % i + value(r, r.choice(ANY), d + 1) for i in range(r.choice([0, 1, 3]) if d < 3 else 0)) + b" ]"
    if t == "function": return r.choice([b"function () 1 end", b"function (a) a end", b"function () std.panic(1) end", b"std.len", b"std.type", b"std.iter([1])", b"BOUND", b"std.range(0, 1, 1)", b"REGEX.match", b"function () [1][3] end", b"std.args"])
    return b"std.error(%s, %s)" % (value(r, "string"), value(r, r.choice(ANY), d + 1)) if r.random() < 0.8 else b"enest(50)"


def args(r, f):
    """-> (expressions, types, well typed?)"""
    sig = r.choice(SIG[f]); k = r.random()
    if k < 0.55: ts = [r.choice(a) for a in sig[0]]
    elif k < 0.75: ts = [r.choice(ANY) for _ in sig[0]]
    elif k < 0.9 and sig[0]:
        ts = [r.choice(a) for a in sig[0]]; ts[r.randrange(len(ts))] = r.choice(ANY)
    else: ts = [r.choice(ANY) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 8]))]
    es = [c08.L(r.choice(TEXT[f])) if t == "string" and f in TEXT and r.random() < 0.7 else value(r, t) for t in ts]
    return es, ts


def allowed(f, ts):
    """-> (result types, panic kinds)"""
    for sig in SIG[f]:
        if len(sig[0]) == len(ts) and all(t in a for t, a in zip(ts, sig[0])): return sig[1], sig[2]
    return (), ("arity", "type")


def special(f, ts, es):
    """Calls that are not made."""
    if f == "sleep" and ts == ["int"]: return not (es[0].startswith(b"(-") or es[0] in (b"0", b"1", b"2", b"5"))
    if f == "exit" and ts == ["int"]: return es[0] in (b"0", b"1", b"2", b"5", b"7", b"255")
    if f == "import" and ts == ["string"]: return b"rep(" in es[0]
    if f == "replace" and sum(1 for e in es if b"rep(" in e or len(e) > 1000) > 1: return True
    if f in ("REGEX.replace", "split") and sum(1 for e in es if b"rep(" in e or len(e) > 1000) > 1: return True
    if f == "export" and ts and es[0] in (b'"PATH"', b'"HOME"'): return True
    return False


def script(calls):
    src = bytearray(diff.HEAD + OBJ + b"let LOG = []\nlet W = function (i, e, before, after) let t = std.type(e) let d = if t == \"error\" then e.description else \"\" end let c = if t == \"error\" then std.type(e.context) == \"string\" and e.context == \"panic\" else false end\n"
                    b"std.push(LOG, [i, t, d, c, before == after]) end\n")
    for i, (f, ts, es, form) in enumerate(calls):
        src += b"(function ()\n".replace(b"(", b"let x%d = (" % i, 1)
        for j, e in enumerate(es): src += b"let a%d = %s\n" % (j, e)
        av = b", ".join(b"a%d" % j for j in range(len(es)))
        name = f.encode() if f.split(".")[0] in ("REGEX", "BOUND", "RANGE") or f.startswith("ITER") else b"std." + f.encode()
        if f in ("randseed",): pass
        src += b"let before = [%s]\nbefore = [%s]\n" % (b"", b", ".join(b"S(a%d)" % j for j in range(len(es))))
        if form == 0: src += b"let e = std.catch(function () %s(%s) end)\n" % (name, av)
        elif form == 1: src += b"let g = %s\nlet e = std.catch(function () g(%s) end)\n" % (name, av)
        elif form == 2: src += b"let e = std.catch(function () std.bind(nil, %s)(%s) end)\n" % (name, av)
        else: src += b"let e = std.catch(function () @[ m: %s ].m(%s) end)\n" % (name, av)
        src += b"W(%d, e, before, [%s])\nend)()\n" % (i, b", ".join(b"S(a%d)" % j for j in range(len(es))))
    src += b"std.println(\"\\n@@RESULT\") for x in std.iter(LOG) do std.println(S(x)) end\n"
    return bytes(src)


def one(calls, d):
    q = common.hush(script(calls), cwd=d, stdin=b"line one\nline \xff two\n\nlast", timeout=90)
    return q


def judge(calls, q):
    """-> (bad or None, outcome list)"""
    if q.stuck: return "the interpreter %s" % ("runs forever" if q.spin else "is stuck"), []
    if q.crash() or q.status != 0: return "the interpreter ended with status %s: %s" % (q.status, q.err[-300:].decode("utf-8", "replace")), []
    _, sep, log = q.out.rpartition(b"\n@@RESULT\n")
    if not sep: return "the interpreter stopped early: %r" % q.err[-200:], []
    out = []
    for l in log.split(b"\n")[:-1]:
        v = vals.parse(l)
        i, t, desc, ispanic, same = v.a
        f, ts, es, form = calls[i]
        text = desc.decode("utf-8", "replace")
        p = parse_panic(text) if t == b"error" and ispanic is True and text.startswith("caught panic: ") else None
        if f in VARIADIC: types, kinds = N_, ()
        else: types, kinds = allowed(f, ts)
        if t == b"error" and ispanic is True and f == "catch" and ts == ["function"]: p = None
        what = "std.%s(%s)" % (f, b", ".join(es).decode("latin1")[:500])
        if p:
            kind = "io" if p[3].startswith("other:") and "io" in kinds else p[3]
            out.append((f, "!" + kind))
            if kind not in kinds: return "%s: unexpected panic %r" % (what, p[4][:200]), out
        else:
            out.append((f, t.decode()))
            if t.decode() not in types: return "%s: gives a value of type %s instead of %s" % (what, t.decode(), " or ".join(types) or "a panic (%s)" % ", ".join(kinds)), out
        if same is not True and (f not in MUTATE or p): return "%s: the arguments changed" % what, out
    if len(out) != len(calls): return "%d of %d calls are recorded" % (len(out), len(calls)), out
    return None, out


def batch(seed):
    r = random.Random(seed)
    d = common.scratch()
    for n in ("f1", "f2", "\u00e9"):
        with open(os.path.join(d, n), "w") as f: f.write("x")
    calls = []
    names = sorted(SIG)
    while len(calls) < 50:
        if r.random() < 0.04:
            n = r.choice([0, 1, 3, 12]); ts = [r.choice(ANY) for _ in range(n)]
            calls.append((r.choice(VARIADIC), ts, [value(r, t) for t in ts], r.randrange(4))); continue
        f = r.choice(names)
        es, ts = args(r, f)
        if special(f, ts, es): continue
        calls.append((f, ts, es, r.randrange(4)))
    q = one(calls, d)
    if q.timeout and not q.stuck: shutil.rmtree(d, ignore_errors=True); return {"ok": True, "inconclusive": "watchdog"}
    bad, out = judge(calls, q)
    files = {"program.hsh": script(calls), "stderr.txt": q.err, "stdout.txt": q.out[-20000:]}
    if bad and not out:
        for c in calls:
            s = one([c], d)
            if s.timeout and not s.stuck: continue
            b2, _ = judge([c], s)
            if b2: bad = "std.%s(%s): %s" % (c[0], b", ".join(c[2]).decode("latin1")[:500], b2); files = {"program.hsh": script([c]), "stderr.txt": s.err}; break
    shutil.rmtree(d, ignore_errors=True)
    st = {"calls": len(out), "panics": sum(1 for o in out if o[1][0] == "!")}
    for o in out: st["outcome " + o[1]] = st.get("outcome " + o[1], 0) + 1
    res = {"ok": bad is None, "evals": len(out), "distinct": [repr((c[0], c[2])).encode() for c in calls], "stats": st, "desc": bad, "files": files,
           "sample": {"call": "std.%s(%s)" % (calls[0][0], b", ".join(calls[0][2]).decode("latin1")[:120]), "outcome": out[0][1] if out else None}}
    return confirm(batch, seed, res)


def wrong(item):
    """Every function with every number of arguments up to 5, and each argument of every type in turn."""
    f, seed = item
    r = random.Random(seed)
    d = common.scratch()
    calls = []
    for n in range(6):
        ts = [r.choice(ANY) for _ in range(n)]
        calls.append((f, ts, [value(r, t) for t in ts], r.randrange(4)))
    for sig in SIG[f]:
        for i in range(len(sig[0])):
            for t in ANY:
                ts = [r.choice(a) for a in sig[0]]; ts[i] = t
                calls.append((f, ts, [value(r, x) for x in ts], r.randrange(4)))
    calls = [c for c in calls if not special(c[0], c[1], c[2])]
    q = one(calls, d)
    shutil.rmtree(d, ignore_errors=True)
    if q.timeout and not q.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad, out = judge(calls, q)
    return {"ok": bad is None, "evals": len(out), "distinct": [repr((c[0], c[2])).encode() for c in calls], "stats": {"systematic_calls": len(out)}, "desc": bad, "files": {"program.hsh": script(calls), "stderr.txt": q.err, "stdout.txt": q.out[-20000:]}}


def texts(item):
    """Every text of the pool of a function that reads a syntax, in the place of each of its string arguments."""
    f, seed = item
    r = random.Random(seed)
    d = common.scratch()
    for n in ("f1", "f2", "\u00e9"):
        with open(os.path.join(d, n), "w") as h: h.write("x")
    calls = []
    for x in TEXT[f]:
        for sig in SIG[f]:
            for i in range(len(sig[0])):
                if sig[0][i] != S_ and "string" not in sig[0][i]: continue
                ts = [r.choice(a) for a in sig[0]]; ts[i] = "string"
                es = [value(r, t) for t in ts]; es[i] = c08.L(x)
                calls.append((f, ts, es, r.randrange(4)))
    calls = [c for c in calls if not special(c[0], c[1], c[2])]
    r.shuffle(calls)
    q = one(calls, d)
    if q.timeout and not q.stuck: shutil.rmtree(d, ignore_errors=True); return {"ok": True, "inconclusive": "watchdog"}
    bad, out = judge(calls, q)
    files = {"program.hsh": script(calls), "stderr.txt": q.err, "stdout.txt": q.out[-20000:]}
    if bad and not out:
        for c in calls:
            s = one([c], d)
            if s.timeout and not s.stuck: continue
            b2, _ = judge([c], s)
            if b2: bad = "std.%s(%s): %s" % (c[0], b", ".join(c[2]).decode("latin1")[:500], b2); files = {"program.hsh": script([c]), "stderr.txt": s.err}; break
    shutil.rmtree(d, ignore_errors=True)
    return {"ok": bad is None, "evals": len(out), "distinct": [repr((c[0], c[2])).encode() for c in calls], "stats": {"text_calls": len(out)}, "desc": bad, "files": files}


def complete(_):
    """Every function of the table is there."""
    q = common.hush(b"let show = function (p, d) for e in std.iter(d) do if std.type(e.value) == \"dict\" then show(p ++ e.key ++ \".\", e.value) else std.println(p ++ e.key) end end end\nshow(\"\", std)\n")
    have = set(q.out.decode().split())
    missing = sorted(n for n in SIG if n[0].islower() and n not in have)
    if q.timeout and not q.stuck: return {"ok": True, "inconclusive": "watchdog"}
    return {"ok": q.status == 0 and not missing, "evals": 1, "stats": {"library_functions": len(have)}, "desc": "status %s, library functions missing: %s" % (q.status, missing), "files": {"stdout.txt": q.out}}


def run(c):
    c.rule = ("every library function, and the functions the library hands out, called with hostile arguments of right and wrong number and types, directly, by alias, bound and as a method; the outcome must be a value of the documented type or a catchable panic of the right kind, the arguments unchanged on failure, the interpreter alive; distinct by call")
    c.map(complete, [0])
    c.map(wrong, [(f, "c22w/%d/%d/%s" % (c.seed, i, f)) for i in range(c.n(4, 60)) for f in sorted(SIG)], cap=c.cap(100, 900), chunk=2)
    if c.viol: return
    c.map(texts, [(f, "c22t/%d/%d/%s" % (c.seed, i, f)) for i in range(c.n(2, 12)) for f in sorted(TEXT)], cap=c.cap(90, 600), chunk=1)
    if c.viol: return
    c.map(batch, ["c22/%d/%d" % (c.seed, i) for i in range(c.n(1200, 30000))], cap=c.cap(120, 1500), chunk=2)
    if not c.viol: c.exhaust("self-containing", b"let a = [1]\nstd.push(a, a)\nstd.println(std.type(std.catch(function () std.to_string(a) end)))\n", [(0, b"string\n"), (0, b"error\n")])
    if not c.viol: c.exhaust("json-self-containing", b"let a = [1]\nstd.push(a, a)\nstd.println(std.type(std.catch(function () std.json.encode(a) end)))\n", [(0, b"error\n")])
