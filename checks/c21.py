"""C21: reported positions point at the culprit."""
import os, random, re, shutil
from engine import common, cmds, diff, gen, printer
from engine.lang import *
from . import c12
from .c12 import confirm

M = b"\x01"        # marks the culprit in a template; taken out before the text is used


# --------------------------------------------------------------- text in front of the culprit
def bytes_(r, n, no=()): return bytes(r.choice([c for c in range(256) if c not in no]) for _ in range(n))


def atom(r, i):
    """A statement without effect that is hard on the bookkeeping of lines and columns."""
    n = b"n%d_%d" % (i, r.randrange(10**9))
    k = r.randrange(22)
    if k == 0: return b"# " + bytes_(r, r.randint(0, 40), (10, 1)) + b"\n"
    if k == 1: return b"\n" * r.randint(1, 9)
    if k == 2: return b"let %s = \"" % n + bytes_(r, r.randint(0, 30), (0x22, 0x5c, 1)) + b"\"" + r.choice([b"\n", b" ", b"\t"])
    if k == 3: return b"let %s = \"a\n\n\nb\\n\\\"\n\"" % n + r.choice([b"\n", b" "])
    if k == 4: return b"let %s = '\n'" % n + r.choice([b"\n", b" "])
    if k == 5: return b"let %s = function () { true\n\n  x ; # comment }\n\tfalse | \"a\nb\" 'c\nd'\n} end" % n + r.choice([b"\n", b" "])
    if k == 6: return b"let %s = function ()\n${ a\\\nb \"$std\n\" ${std}\n'\n' }\nend" % n + r.choice([b"\n", b" "])
    if k == 7: return b"\r\n" * r.randint(1, 3)
    if k == 8: return b"\t" * r.randint(1, 5) + b" " * r.randint(0, 5)
    if k == 9: return "let {} = \"caf\u00e9 \u20ac \U0001f600 \u2028 \u0085 \x0b\x0c\" ".format(n.decode()).encode()
    if k == 10: return b"let %s = [\n1,\n2 # x\n, 3,]" % n + r.choice([b"\n", b" "])
    if k == 11: return b"let %s = @[\n a: 1, b:\n\n2\n]" % n + r.choice([b"\n", b" "])
    if k == 12: return b"let %s = 1.5e10 let %s_ = 12345678 " % (n, n)
    if k == 13: return b"function %s (a,\nb) a end" % n + r.choice([b"\n", b" "])
    if k == 14: return b"let %s = \"" % n + b"x" * r.choice([300, 3000, 70000]) + b"\" "
    if k == 15: return b"\n" * r.choice([300, 1000, 1000, 40000, 70000]) if r.random() < 0.2 else b"\n"
    if k == 16: return b"if false then\n%s end " % r.choice([b"1", b"{ a > b\n2> c }", b"\"\n\""])
    if k == 17: return b"while false do\n# end\nend "
    if k == 18: return b"\x0c \x0c"
    if k == 19: return b"let %s = '\\n' let %s_ = \"\\0\\t\\\\\" " % (n, n)
    if k == 20: return b"let %s = function () &{ a=b c=\"d\ne\" f >> g << \"h\ni\" ? ;\nj } end " % n
    if k == 21: return b"let %s = 'x' # " % n + r.choice([b"'", b"\"", b"{", b"\\", b"\r", b"\xff"]) + b"\n"


def noise(r, most=8): return b"".join(atom(r, i) for i in range(r.randint(0, most))) + r.choice([b"\n", b" ", b"\n\t", b""])


def place(text):
    """-> (text without the marks, [(line, column)])"""
    out = bytearray(); at = []
    for p in text.split(M):
        out += p
        at.append((out.count(b"\n") + 1, len(out) - (out.rfind(b"\n") + 1)))
    return bytes(out), at[:-1]


# --------------------------------------------------------------- panics in generated programs
def program(seed):
    rng = random.Random(seed)
    style = rng.choice(["wild", "wild", "wild", "pretty", "tight"])
    b = clone(gen.Gen(rng, rng.choice(["panic", "panic", "mix", "flow", "scope"]), rng.choice([20, 40, 60])).program())
    pre = noise(rng, 5) + b"\n" if rng.random() < 0.6 else b""
    head = diff.HEAD + pre
    src = head + printer.source(b, rng, style, trailing=0.2, start=(head.count(b"\n") + 1, 0))
    try: out, st, kind, m = gen.expect(b, positions=True)
    except Budget: return {"ok": True, "evals": 0, "stats": {"discarded": 1}}
    name = rng.choice(["t.hsh", "a b.hsh", "caf\u00e9.hsh", "x (line 3, column 4): y.hsh", "-.hsh", "noext"])
    d = common.scratch()
    r = common.hush(src, cwd=d, name=name)
    if r.timeout and not r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    files = set(); got = None
    path = os.path.join(d, name)
    if r.status == 127:
        e = r.err.decode("utf-8", "surrogateescape").strip().replace(path, "FILE")
        p = parse_panic(e)
        got = "%s@%d:%d" % (p[3], p[1], p[2]) if p else "unreported"
        if p and p[0] != "FILE": files.add(p[0])
    hexed = path.encode().hex().encode()
    for m in re.finditer(rb"E\(([0-9a-f]*)\|s70616e6963\)", r.out):
        if hexed not in m.group(1): files.add(bytes.fromhex(m.group(1).decode())[:200])
    o = norm_output(r.out.replace(hexed, b"FILE".hex().encode()), True)
    panics = o.count(b"E(!") + (r.status == 127)
    bad = None
    if files: bad = "another file is named: %r" % sorted(files, key=str)[:3]
    elif (o, r.status, got) != (out, st, kind): bad = "%s; expected status %s (%s), observed %s (%s)" % (diff.first_diff(out, o), st, kind, r.status, got)
    shutil.rmtree(d, ignore_errors=True)
    res = {"ok": bad is None, "evals": panics, "distinct": re.findall(rb"E\(!(\w+@\d+:\d+)", out) + ([kind.encode()] if kind else []), "stats": {"programs": 1, "runtime_positions": panics},
           "desc": "positions of panics: %s" % bad, "files": {"program.hsh": src, "expected.txt": out, "observed.txt": o, "stderr.txt": r.err}}
    return confirm(program, seed, res)


# --------------------------------------------------------------- static errors
SEMANTIC = [b"\x01nope", b"\x01nope + \x01nada", b"let y = 1 let \x01y = 2", b"let y = 1 function \x01y () end", b"\x01return 1", b"\x01self", b"std\x01?", b"std.len(\"\")\x01?", b"\x01break", b"if true then \x01break end", b"1 \x01= 2", b"std.len(\"\")\n\x01= 3",
            b"let d = @[ a: 1, b: 2, \x01a: 3 ]", b"let d = @[ a: @[ c: 1,\n \x01c: 1 ], \x01a: 3 ]", b"{ \x01cd x | y }", b"{ y | \x01cd x }", b"${ a; \x01cd x }", b"&{ \x01exec x }", b"{ \x01alias > x }", b"${ a;\n\x01spawn0 a b; c }", b"function f (a, \x01a) end", b"function f (a, b, \x01a, \x01b) end",
            b"{ a \x01$nope }", b"{ a \"x y\x01$nope\" }", b"{ a \"x \ny\x01${nope}\" }", b"{ A=\x01$nope b }", b"{ a > \x01$nope }", b"{ a << \x01$nope }", b"{ a b \x01${nope}c\x01$nada }", b"{ a |\n b \x01$nope; \x01$nope }", b"function f () \x01break end", b"while false do function f () \x01break end end",
            b"for i in \x01nope do i end \x01i", b"let f = function (p)\n let \x01p = 1 end", b"for i in std do let \x01i = 1 end", b"\x01nope.x = 1", b"\x01nope[0] = \x01nada", b"let z = \x01z_", b"if false then let q = 1 end \x01q", b"function g () function h () \x01nope end end", b"\x01nope()", b"std.len(\x01nope)", b"\x01nope.nada",
            b"std[\x01nope]", b"not \x01nope", b"let zz = -\x01nope", b"let zz = [1, \x01nope, 3]", b"@[ a: \x01nope ]", b"if \x01nope then \x01nada elseif \x01nope then else \x01nada end", b"while \x01nope do \x01nada end", b"1 + 2 \x01= 2", b"function () end \x01= 3", b"function k () return \x01nope end", b"function k () \x01nope? end",
            b"if true then \x01self end", b"if true then \x01return end", b"while true do \x01return std end"]
SYNTAX = [b"let \x01= 2", b"let a = [1 \x012]", b"let a = @[ a \x011 ]", b"std.\x011", b"1.2.\x013", b"let a = (1 \x012)", b"let x = 1 \x01` 2", b"let x = \"a\x01\\qb\"", b"let x = \"a\n\nb \x01\\q\"", b"let x = 'a\x01b'", b"let x = \x01''", b"{ a > \x01}", b"{ a | \x01}", b"{ \x01}", b"{ a ; \x01; b }", b"{ \x01[ }",
          b"let x = \x0199999999999999999999", b"function (\x011) end", b"for \x011 in x do end", b"for x \x01y", b"while true \x01end", b"if true \x011 end", b"\x01end", b"\x01)", b"{ \x01${} }", b"1 + \x01break", b"let a = \x01let b", b"{ a << \x01}", b"{ a\x01\\q }", b"{ \"a\x01\\q\" }", b"{ A=1 \x01}", b"{ A=1 \x01| b}", b"\x01?", b"std(\x01,)",
          b"let zz = [\x01,]", b"1 \x01; 2", b"let x = \x01\\ 2", b"{ a\n\n;\x01; }", b"{ true\n| \"b\nc\" | \x01}", b"if true then 1 else 2 \x01else 3 end", b"@[ \x011: 2 ]", b"let x = 1 \x01} 2", b"x = \x01* 2", b"let x = 2 *\n\n\x01/ 3", b"let s = \"\n\n\" let \x01\"t\" = 1", b"function f (a \x01b) end", b"std.len(\"\" \x01\"\")", b"let x = @[ a: 1 \x01b: 2 ]",
          b"let x = not \x01end", b"let x = \x01then", b"{ a \x01{ } }", b"{ a } \x01}", b"let x = 1 == \x01== 2", b"let x = \x01&1", b"let x = 1 \x01^ 2", b"let x = 1 \x01! 2", b"{ a 'b\n' | \x01; }"]
ERR = re.compile(r"Error: (.*?) \(line (\d+), column (\d+)\) - (.*)")


def static(seed):
    r = random.Random(seed)
    sem = r.random() < 0.6
    t = r.choice(SEMANTIC if sem else SYNTAX)
    pre = noise(r)
    wrap = r.random()
    body = t
    if sem and wrap < 0.25 and b"return" not in t and b"self" not in t and b"?" not in t: body = b"let w%d = function ()\n\n " % r.randrange(10**6) + t + b"\nend"
    elif sem and wrap < 0.4: body = b"if false then " + noise(r, 2) + t + b"\nend"
    elif wrap < 0.5: body = b"let q7 = [1,\n 2]\n" + t
    full, at = place(pre + b"\n" * r.randint(0, 2) + r.choice([b"", b" ", b"\t\t"]) + body + (b"\n" + noise(r) if sem else b"\n"))
    if sem and r.random() < 0.3:
        # several errors in one text
        extra = [r.choice(SEMANTIC) for _ in range(r.randint(1, 3))]
        full, at = place(pre + b"\n" + b"\n".join(b"if false then\n" + noise(r, 2) + x + b"\nend" for x in [t] + extra) + b"\n")
    how = r.choice(["file", "file", "stdin", "module"])
    d = common.scratch()
    try:
        if how == "file":
            q = common.hush(full, cwd=d, flags=r.choice([("--check",), ()]), name="a b.hsh"); path = os.path.join(d, "a b.hsh")
        elif how == "stdin": q = common.run([common.W["hush"], "--check"], stdin=full, env=common.BASE_ENV, cwd=d); path = "<stdin>"
        else:
            os.mkdir(os.path.join(d, "sub")); path = os.path.join(d, "sub", "mod.hsh")
            with open(path, "wb") as f: f.write(full)
            q = common.hush(b"\n\n   std.import(\"%s\")\n" % path.encode(), cwd=d, name="main.hsh")
        if q.timeout and not q.stuck: return {"ok": True, "inconclusive": "watchdog"}
        err = q.err.decode("utf-8", "replace")
        got = [(m.group(1), int(m.group(2)), int(m.group(3))) for m in ERR.finditer(err)]
    finally: shutil.rmtree(d, ignore_errors=True)
    bad = None
    if not got: bad = "no report with a position (status %s): %r" % (q.status, err[:200])
    elif any(os.path.realpath(g[0]) != os.path.realpath(path) if how == "module" else g[0] != path for g in got): bad = "the report names %r, the text is in %r" % (got[0][0], path)
    elif sem and sorted(g[1:] for g in got) != sorted(at): bad = "reported at %s, the errors are at %s" % (sorted(g[1:] for g in got), sorted(at))
    elif not sem and got[0][1:] != at[0]: bad = "the first error is at %s, reported at %s" % (at[0], got[0][1:])
    elif how == "module":
        p = parse_panic(err[err.find("Panic in"):].strip()) if "Panic in" in err else None
        if not p or (p[1], p[2]) != (3, 13) or os.path.basename(p[0]) != "main.hsh": bad = "the failed import is at main.hsh (3, 13), reported: %r" % err[-200:]
    return {"ok": bad is None, "evals": len(at), "distinct": [repr((t, at)).encode()], "stats": {"static_positions": len(at), "static_" + how: 1}, "desc": "static error %r: %s\ntext: %r" % (t, bad, full[-400:]),
            "files": {"program.hsh": full, "stderr.txt": q.err}, "sample": {"error": repr(t), "at": at[:3]}}


# --------------------------------------------------------------- panics of command blocks, and in modules
PANICS = [b"{ true a\"x\x01${d}\"b }", b"{ \x01$d }", b"{ true > \x01$d }", b"{ A=\x01$d true }", b"{ true;\n true |\n true \x01$d; true }", b"${ true x\x01$d }", b"&{ true\n\n \"\n\x01$d\" }", b"{ \x01true 7> x }", b"{ true; A=b \x01true\n 2>7 }", b"{ \x01$a }", b"{ true > \x01$a }", b"{ \x01A=$a true }", b"{ true; \x01cd  a b }", b"{ \x01cd }", b"{ true << \x01$a }",
          b"{ true < \x01$a; true }", b"{ true | true | \x01$a b }", b"1 \x01/ 0", b"9223372036854775807\n\x01+ 1", b"\x01d + 1", b"1 +\n \x01d", b"\"x\" ++\n\x01d", b"d.\x01nope", b"d[\n\x01\"nope\"]", b"a[\x012]", b"a[\x01\"x\"]", b"\x01n.x", b"\x01n[0] = 1", b"std.len\x01(1)", b"std.len\x01()", b"std.panic\n\x01(1)", b"std.assert\x01(false)", b"std.pop\x01([])",
          b"\x01d()", b"if \x01n then 1 end", b"while \x01n do 1 end", b"for i in \x01n do 1 end", b"not \x01n", b"let zz = -\x01n", b"true and \x01n", b"\x01n or true", b"std.import\x01(\"nope-no-such\")", b"std.import\x01(\".\")", b"std.import\n\x01(\"/proc/self/mem\")", b"std.import\x01(\"\")", b"std.import\x01(\"/\")", b"std.import\x01(n)", b"let jj = &{ true }\njj.join() jj.join\x01()", b"f\x01(1, 2)", b"std.catch(function () f(1) end) f\x01(3, 4)", b"std.iter\x01(1)", b"std.range\x01(1)",
          b"1 <\n\x01\"a\"", b"\x01d < d", b"std.push\x01(1, 2)", b"std.sleep\x01(-1)", b"std.bind(n, f)\x01(1)", b"std.error(\"\", 1).\x01nope = 2", b"std.error(\"\", 1).\x01nope", b"a\x01[-1] = 2", b"a[\x019] = 2", b"\"abc\"[\x013]", b"\"abc\"[\x01nil]"]
PRE = b"let d = @[] let a = [1, 2] let n = nil let f = function () 1 end\n"


def panic(seed):
    r = random.Random(seed)
    d = common.scratch()
    os.makedirs(os.path.join(d, "lib", "sub dir"))
    def body(k):
        """k functions, each with a culprit in it"""
        src = bytearray(PRE); src += noise(r)
        ats = []; names = []
        for i in range(k):
            t = r.choice(PANICS)
            src += b"\nlet c%d = function ()\n" % i + (noise(r, 2) if r.random() < 0.5 else b" ")
            src += t
            src += b"\nend\n" + noise(r, 2) + b"\n"
            names.append(t)
        text, at = place(bytes(src))
        return text, at, names
    k = r.randint(2, 5)
    paths = [os.path.join(d, "main.hsh"), os.path.join(d, "lib", "m1.hsh"), os.path.join(d, "lib", "sub dir", "m2.hsh")]
    want = []; texts = {}
    for i, p in enumerate(paths):
        text, at, names = body(k)
        exp = b"@[ " + b", ".join(b"c%d: c%d" % (x, x) for x in range(k)) + b" ]\n"
        if i == 0:
            text += b"let m0 = " + exp + b"let m1 = std.import(\"lib/m1.hsh\")\nlet m2 = m1.m2\n"
            order = [(m, x) for m in range(3) for x in range(k)]
            r.shuffle(order)
            last = order.pop()
            for m, x in order:
                text += b"std.println(std.hex.encode(std.catch(m%d.c%d).description))\n" % (m, x)
            text += b"m%d.c%d()\n" % last
        elif i == 1: text += b"let out = " + exp + b"out.m2 = std.import(\"sub dir/m2.hsh\")\nout\n"
        else: text += exp
        want.append((p, at, names)); texts[p] = text
        with open(p, "wb") as f: f.write(text)
    q = common.run([common.W["hush"], paths[0]], env=common.BASE_ENV, cwd=d)
    files = {os.path.basename(p): t for p, t in texts.items()}
    files.update({"stderr.txt": q.err, "stdout.txt": q.out})
    if q.timeout and not q.stuck: shutil.rmtree(d, ignore_errors=True); return {"ok": True, "inconclusive": "watchdog"}
    bad = None; lines = q.out.split(b"\n")[:-1]; n = 0
    seen = [bytes.fromhex(l.decode()).decode("utf-8", "replace") if re.fullmatch(rb"[0-9a-f]*", l) else "?" for l in lines]
    seen.append(q.err.decode("utf-8", "replace").strip())
    if q.status != 127 or len(seen) != 3 * k: bad = "status %s, %d panics instead of %d: %s" % (q.status, len(seen), 3 * k, q.err[:300])
    else:
        for (m, x), s in zip(order + [last], seen):
            p = parse_panic(s); path, at, names = want[m]; n += 1
            if not p: bad = "%r in %s: not a panic: %r" % (names[x], os.path.basename(path), s[:200])
            elif os.path.realpath(os.path.join(d, p[0])) != os.path.realpath(path): bad = "%r: the file is %s, reported %s" % (names[x], path, p[0])
            elif p[1:3] != at[x]: bad = "%r in %s: the culprit is at %s, reported at %s (%s)" % (names[x], os.path.basename(path), at[x], p[1:3], p[4][:100])
            if bad: break
    shutil.rmtree(d, ignore_errors=True)
    res = {"ok": bad is None, "evals": n, "distinct": [repr(w[2]).encode() + repr(w[1]).encode() for w in want], "stats": {"template_panics": n, "in_modules": sum(1 for m, _ in order if m)}, "desc": "position of a panic: %s" % bad, "files": files}
    return confirm(panic, seed, res)


def failures(seed): return c12.case(seed, noise)


def run(c):
    c.rule = ("panics of generated programs in wild layouts, uncaught and caught, against the position the printer assigned to the culprit; static errors, command failures and panics in main file and modules behind text that is hard on line and column counting; distinct by position and construct")
    k = lambda f, q, t: c.map(f, ["c21%s/%d/%d" % (f.__name__, c.seed, i) for i in range(c.n(q, t))], cap=c.cap(100, 1200), chunk=8, extra={"hv": cmds.tool()})
    for f, q, t in ((static, 4000, 100000), (panic, 1200, 20000), (program, 2500, 60000), (failures, 600, 10000)):
        k(f, q, t)
        if c.viol: return
