"""C19: the command line keeps its contract."""
import os, random, shutil, stat, subprocess
from engine import common, cmds, diff, gen, printer, vals
from engine.lang import *
from .c12 import confirm

SHOW = diff.HEAD + b"T(\"n\", std.len(std.args()))\nfor x in std.iter(std.args()) do T(\"a\", x) end\nT(\"same\", std.args() == std.args())\n"
LOOKALIKE = [b"--check", b"--help", b"-h", b"--version", b"-V", b"--lex", b"--ast", b"--program", b"--", b"-", b"", b"-x", b"--foo=bar", b"a.hsh", b"script.hsh", b"--check=1", b"$x", b"*", b"~", b"{}",
             b"\xff\xfe", b"a b", b"a\nb", b"\t", b"'", b"\"", b"\\", b"\\n", b"=", b"a=b", b"@file", b"+x", b"/dev/null", b"\xc3\xa9", b"--check\n", b"std", b"-1", b"0", b"nil", b"help", b"version"]


def rand_args(r):
    n = r.choice([0, 0, 1, 1, 2, 3, 5, 12]) if r.random() < 0.97 else r.choice([300, 2000])
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.6: out.append(r.choice(LOOKALIKE))
        elif k < 0.95: out.append(bytes(r.choice(range(1, 256)) for _ in range(r.choice([1, 3, 10]))))
        else: out.append(b"L" * (r.choice([5000, 100000]) if n < 6 else 700))
    return out


def launch(argv, stdin, cwd, **kw):
    e = dict(common.BASE_ENV)
    e["PATH"] = os.path.dirname(common.W["hv"]) + ":/usr/local/bin:/usr/bin:/bin"
    e["HV_LOG"] = os.path.join(cwd, "log")
    return common.run([common.W["hush"].encode()] + argv, stdin=stdin, env=e, cwd=cwd, **kw)


NAMES = [b"script.hsh", b"no extension", b"-x.hsh", b"--check.hsh", b"\xff.hsh", b"a\nb", b"sp ace.hsh", b"*", b"'q\"", b"\xc3\xa9.hsh", b"std"]

def args(seed):
    r = random.Random(seed)
    cwd = common.scratch()
    a = rand_args(r)
    name = r.choice(NAMES)
    with open(os.path.join(cwd.encode(), name), "wb") as f: f.write(SHOW)
    mode = r.randrange(7)
    stdin = b"not the script\n"
    if mode == 0: argv = [os.path.join(cwd.encode(), name)] + a
    elif mode == 1: argv = [b"./" + name] + a
    elif mode == 2:
        os.symlink(name, os.path.join(cwd.encode(), b"link")); argv = [b"link"] + a
    elif mode == 3: argv = [b"--"] + [name] + a                 # everything after -- is the script and its arguments
    elif mode == 4: argv = [b"-"] + a; stdin = SHOW
    elif mode == 5:
        a = []; argv = []; stdin = SHOW
    else:
        # the first argument is no file: all of them are arguments of the script in stdin
        first = r.choice([b"nofile", b"", b"/nonexistent/x", b"a b", b"\xfe", b"x" * 300])
        a = [first] + a; argv = list(a); stdin = SHOW
    s = launch(argv, stdin, cwd)
    if s.timeout and not s.stuck: return {"ok": True, "inconclusive": "watchdog"}
    want = b"n i%d\n" % len(a) + b"".join(b"a s" + x.hex().encode() + b"\n" for x in a) + b"same bt\n"
    got = s.out
    bad = None
    if s.status != 0: bad = "status %s: %s" % (s.status, s.err[:300])
    elif got.split(b"\n")[:-2] != want.split(b"\n")[:-2] or not got.startswith(b"n "): bad = "arguments arrive as given: " + diff.first_diff(want, got)
    shutil.rmtree(cwd, ignore_errors=True)
    res = {"ok": bad is None, "evals": 1 + len(a), "distinct": [repr(argv)], "stats": {"launches": 1, "arguments": len(a)}, "desc": None if not bad else "%s; command line %r" % (bad, argv[:20]), "files": {"argv.txt": repr(argv), "script.hsh": SHOW, "observed.txt": got, "stderr.txt": s.err},
           "sample": {"argv": [repr(x) for x in argv[:8]]}}
    return confirm(args, seed, res)


# ------------------------------------------------------------------ how a script ends
WRAP = [b"%s", b"if true then %s end", b"(function () %s end)()", b"for i in std.range(0, 3, 1) do %s end", b"while true do %s end", b"let z = [1, (function () %s end)()]",
        b"std.println((function () %s end)())", b"let q = @[ f: function () %s end ] q.f()", b"let v = 1 + (function () %s end)()", b"(function (n) let go = nil go = function (k) if k > 0 then go(k - 1) else %s end end go(50) end)(1)"]


def ends(seed):
    r = random.Random(seed)
    cwd = common.scratch()
    src = b""; out = b""
    for i in range(r.choice([0, 1, 3, 10])):
        t = b"<%d>" % i + b"y" * r.choice([0, 1, 100, 1023, 1024, 1025, 8191, 8192, 8193, 70000, 200000])
        if r.random() < 0.5: src += b"std.println(\"%s\")\n" % t; out += t + b"\n"
        else: src += b"std.print(\"%s\")\n" % t; out += t
    kind = r.choice(["end", "end", "exit", "exit", "exit", "panic", "static", "badexit", "error", "exitmod", "panicmod", "fail"])
    wrap = r.choice(WRAP)
    if wrap.startswith(b"(function"): wrap = b"let _w = " + wrap
    st = 0; effect = True
    if kind == "end": src += wrap.replace(b"while true", b"while false") % b"let nothing = 1 nothing = 2" + b"\n" if b"std.println((" not in wrap and b"let v" not in wrap else b""
    elif kind == "exit":
        st = r.choice([0, 1, 2, 3, 100, 126, 127, 128, 200, 254, 255, r.randint(0, 255)])
        body = r.choice([b"std.exit(%d)", b"std.catch(function () std.exit(%d) end)", b"let h = &{ hv s u20000 } std.exit(%d)", b"let c = ${ hv s Ox } std.exit(%d)", b"{ hv s x9 } std.exit(%d)"]) % st
        src += wrap % body + b"\nstd.println(\"UNREACHED\")\n"
    elif kind == "badexit":
        st = 127
        src += wrap % (b"std.exit(%s)" % r.choice([b"256", b"-1", b"257", b"%d" % (1 << r.randint(8, 62)), b"%d" % (r.randint(1, 255) * (1 << r.choice([8, 10, 12, 16, 24, 32, 48])) + r.choice([0, r.randint(0, 255)])), b"-%d" % (1 + r.getrandbits(r.randint(1, 62))), b"-%d" % (1 << r.randint(0, 62)), b"%d" % r.randint(256, 1 << r.randint(9, 62)), b"9223372036854775807", b"\"1\"", b"nil", b"1.0", b"1, 2", b"", b"true", b"[1]"])) + b"\nstd.println(\"UNREACHED\")\n"
    elif kind == "panic":
        st = 127
        src += wrap % r.choice([b"std.panic(\"p\")", b"let x = 1 + \"a\"", b"let x = [1][5]", b"let x = 1 / 0", b"nil()", b"let x = (function (a) a end)()", b"std.assert(false)", b"std.import(\"none.hsh\")", b"{ hv s > none*.zz }", b"std.import(\"bad.hsh\")", b"std.import(\"worse.hsh\")", b"std.import(\".\")", b"std.import(\"circle.hsh\")",
            b"std.len(1)", b"std.len()", b"if nil then 1 end", b"for q in 5 do 1 end", b"std.pop([])", b"std.typecheck(1, \"string\")", b"{ hv s 7> x }", b"{ hv s $std }", b"{ cd a b }", b"std.sleep(-1)", b"std.int(\"x\")", b"let x = @[].y", b"let x = 9223372036854775807 + 1", b"(function () std.randint(2, 1) end)()"]) + b"\nstd.println(\"UNREACHED\")\n"
    elif kind == "static":
        st = 2; out = b""
        src += r.choice([b"let x = undeclared", b"let x = (", b"return 1", b"break", b"let a = 1 let a = 2", b"1 = 2", b"x?", b"end", b"{ }", b"let s = \"open", b"'ab'", b"&{ cd x }", b"self", b"let d = @[ a: 1, a: 2 ]"]) + b"\n"
    elif kind == "error": src += b"std.error(\"last value\", 1)\n"
    elif kind == "fail": src += b"{ hv s x3 }\n"
    else:
        st = r.choice([0, 7, 255]) if kind == "exitmod" else 127
        with open(os.path.join(cwd, "m.hsh"), "wb") as f: f.write(b"std.print(\"in module\")\n" + (b"std.exit(%d)\n" % st if kind == "exitmod" else b"std.panic(\"x\")\n"))
        out += b"in module"
        src += wrap % b"std.import(\"m.hsh\")" + b"\nstd.println(\"UNREACHED\")\n"
    how = r.randrange(8)
    blind = how >= 5      # stderr cannot be written
    if blind and r.random() < 0.5: src = r.choice([b"let caught = std.catch(function () std.import(\"%s\") end)\n" % x for x in (b"bad.hsh", b"worse.hsh", b"none.hsh")]) + src
    with open(os.path.join(cwd, "t.hsh"), "wb") as f: f.write(src)
    for n, t in (("bad.hsh", b"std.println(\"never\")\nlet = 1\n"), ("worse.hsh", b"std.println(\"never\")\nundeclared()\n"), ("circle.hsh", b"std.import(\"circle2.hsh\")\n"), ("circle2.hsh", b"std.import(\"circle.hsh\")\n")):
        with open(os.path.join(cwd, n), "wb") as f: f.write(t)
    stdin = b""
    argv = [b"t.hsh"]
    if how == 1 and "mod" not in kind: argv = []; stdin = src
    if how == 2:
        # a slow reader behind a pipe
        p = launch_sh(b"{ \"$0\" t.hsh; echo $? >st; } | { sleep 0.05; cat; }", cwd); s, got = p, p.out
        try: s.status = int(open(os.path.join(cwd, "st")).read())
        except (OSError, ValueError): pass
    elif how == 3:
        p = launch_sh(b"exec \"$0\" t.hsh >out", cwd); s = p
        got = open(os.path.join(cwd, "out"), "rb").read()
    elif blind:
        p = launch_sh([b"exec \"$0\" t.hsh >out 2>/dev/full", b"exec \"$0\" t.hsh >out 2>&-", b"{ sleep 0.05; \"$0\" t.hsh >out; echo $? >st; } 2>&1 | :"][how - 5], cwd); s = p
        if how == 7:
            try: s.status = int(open(os.path.join(cwd, "st")).read())
            except (OSError, ValueError): pass
        try: got = open(os.path.join(cwd, "out"), "rb").read()
        except OSError: got = b""
    else:
        s = launch(argv, stdin, cwd); got = s.out
    if s.timeout and not s.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = None
    if s.status != st: bad = "status %s, expected %s (%s)" % (s.status, st, kind)
    elif got != out:
        i = next((i for i, (x, y) in enumerate(zip(got, out)) if x != y), min(len(got), len(out)))
        bad = "printed before the end (%s): %d of %d bytes arrived, first difference at %d: %r" % (kind, len(got), len(out), i, got[i:i + 60])
    elif (st == 127 and kind != "exit" and kind != "exitmod" or st == 2 and kind == "static") and not s.err and not blind: bad = "ended without a report on stderr (%s)" % kind
    elif kind in ("end", "exit", "error", "exitmod", "fail") and s.err: bad = "unexpected report: %r" % s.err[:200]
    shutil.rmtree(cwd, ignore_errors=True)
    res = {"ok": bad is None, "evals": 1, "distinct": [src], "stats": {"end_" + kind: 1, "stderr_unwritable": int(blind), "printed_bytes": len(out)}, "desc": bad, "files": {"program.hsh": src, "observed.txt": got[-3000:], "stderr.txt": s.err}}
    return confirm(ends, seed, res)


def launch_sh(script, cwd):
    e = dict(common.BASE_ENV)
    e["PATH"] = os.path.dirname(common.W["hv"]) + ":/usr/local/bin:/usr/bin:/bin"
    e["HV_LOG"] = os.path.join(cwd, "log")
    return common.run([b"/bin/sh", b"-c", script, common.W["hush"].encode()], stdin=b"", env=e, cwd=cwd)


# ------------------------------------------------------------------ --check
def check(seed):
    """A program full of effects is only analysed."""
    r = random.Random(seed)
    cwd = common.scratch()
    fx = [b"std.println(\"EFFECT\")", b"std.print(\"E\")", b"{ hv s LEFFECT }", b"let e1 = ${ hv s LEFFECT }", b"let e2 = &{ hv s LEFFECT }", b"{ hv s Ox > effect.txt }", b"std.import(\"m.hsh\")", b"std.panic(\"EFFECT\")", b"std.exit(9)", b"while true do end",
          b"std.cd(\"/\")", b"let e3 = std.read()", b"std.sleep(100000)", b"let e4 = 1 + nil", b"{ exec hv s LEFFECT }", b"(function () { hv s LEFFECT } end)()", b"for i in nil do end", b"{ cd nowhere }", b"nil()"]
    src = b""
    for k in range(r.choice([1, 3, 8])):
        f = r.choice(fx)
        src += (b"if true then\n%s\nend\n" if b"let e" not in f else b"if true then %s end\n") % f if r.random() < 0.5 and not f.startswith(b"(") else (b"let _%d = " % k + f if f.startswith(b"(") else b"if true then\n" + f + b"\nend") + b"\n"
    wrong = r.random() < 0.4
    if wrong:
        e = r.choice([b"let x = undeclared\n", b"let y = (\n", b"return 1\n", b"break\n", b"1 = 2\n", b"let w = \"open\n", b"'ab'\n", b"let z = &{ cd x }\n", b"self\n"])
        src = e + src if r.random() < 0.3 else src + e
    with open(os.path.join(cwd, "m.hsh"), "wb") as f: f.write(b"std.println(\"EFFECT\")\n")
    with open(os.path.join(cwd, "t.hsh"), "wb") as f: f.write(src)
    before = sorted(os.listdir(cwd))
    via = r.randrange(5)
    show = r.sample([b"--lex", b"--ast", b"--program"], r.randint(1, 3))
    argv, stdin = [([b"--check", b"t.hsh"], b"line\n"), ([b"--check"], src), ([b"--check", b"-", b"x"], src), ([b"--check", b"t.hsh", b"--lex", b"y"], b"line\n"),
                   (r.sample([b"--check"] + show, 1 + len(show)) + [b"t.hsh", b"z"], b"line\n")][via]
    s = launch(argv, stdin, cwd)
    if s.timeout and not s.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = None
    after = sorted(os.listdir(cwd))
    if s.status != (2 if wrong else 0): bad = "status %s, expected %s: %s" % (s.status, 2 if wrong else 0, s.err[:200])
    elif s.out and via != 4: bad = "--check printed %r" % s.out[:200]
    elif after != before: bad = "--check left %s" % (set(after) - set(before))
    elif wrong != bool(s.err): bad = "report on stderr: %r" % s.err[:200]
    shutil.rmtree(cwd, ignore_errors=True)
    return confirm(check, seed, {"ok": bad is None, "evals": 1, "distinct": [src + repr(argv).encode()], "stats": {"only_checked": 1}, "desc": bad, "files": {"program.hsh": src, "argv.txt": repr(argv), "stderr.txt": s.err}})


# ------------------------------------------------------------------ usage
def usage(seed):
    r = random.Random(seed)
    cwd = common.scratch()
    with open(os.path.join(cwd, "t.hsh"), "wb") as f: f.write(b"std.println(\"RAN\")\n{ hv s LEFFECT }\n")
    bad = None; n = 0
    def must(argv, status, out=None, err=None, stdin=b"std.println(\"RAN\")\n", **kw):
        nonlocal bad, n
        if bad: return
        n += 1
        s = launch(argv, stdin, cwd, **kw)
        if s.timeout and not s.stuck: return
        if s.status != status: bad = "%r: status %s, expected %s: %s" % (argv, s.status, status, s.err[:200])
        elif out is not None and bool(s.out) != out: bad = "%r: stdout %r" % (argv, s.out[:100])
        elif err is not None and bool(s.err) != err: bad = "%r: stderr %r" % (argv, s.err[:100])
        elif b"RAN" in s.out or os.path.exists(os.path.join(cwd, "log")): bad = "%r: the script was executed" % argv
    w = bytes(r.choice(b"abcdefgijklmnopqrstuwxyz") for _ in range(r.choice([2, 5])))
    if w not in (b"check", b"lex", b"ast", b"program", b"help", b"version"):
        must([b"--" + w], 1, False, True)
        must([b"--" + w, b"t.hsh"], 1, False, True)
        must([b"--check", b"--" + w, b"t.hsh"], 1, False, True)
    c = bytes([r.choice(b"abcdefgijklmnopqrstuwxyz")])
    must([b"-" + c], 1, False, True); must([b"-" + c, b"t.hsh"], 1, False, True)
    must([b"--help"], 0, True, False); must([b"-h"], 0, True, False); must([b"--version"], 0, True, False); must([b"-V"], 0, True, False)
    must([b"--help", b"t.hsh"], 0, True, False); must([b"--check", b"--version"], 0, True, False)
    # unreadable scripts
    must([b"/proc/self/mem"], 127, False, True); must([b"--check", b"/proc/self/mem"], 127, False, True)
    must([b"/proc/self/mem", b"a", b"b"], 127, False, True)
    fd = os.open(cwd, os.O_RDONLY)
    try: must([], 127, False, True, stdin_file=fd); must([b"-"], 127, False, True, stdin_file=fd)
    finally: os.close(fd)
    shutil.rmtree(cwd, ignore_errors=True)
    return confirm(usage, seed, {"ok": bad is None, "evals": n, "distinct": [w, c], "stats": {"usage_launches": n}, "desc": bad, "files": {"violation-detail.txt": bad or ""}})


def stdin_left(seed):
    """A script from a file leaves stdin to itself and its commands; one from stdin is read to its end."""
    r = random.Random(seed)
    cwd = common.scratch()
    data = b"".join(b"line %d %d\n" % (i, r.randrange(10**6)) for i in range(r.choice([1, 5, 3000])))
    with open(os.path.join(cwd, "t.hsh"), "wb") as f: f.write(b"{ hv s T0 }\n")
    s = launch([b"t.hsh"], data, cwd)
    bad = None
    if s.timeout and not s.stuck: return {"ok": True, "inconclusive": "watchdog"}
    if s.out != data or s.status != 0: bad = "the script's stdin: %d bytes of %d reached its command; status %s" % (len(s.out), len(data), s.status)
    else:
        src = b"std.print(std.read())\n" + b"# filler\n" * r.choice([0, 1000, 20000]) + b"{ hv s T0 }\nstd.print(\"end\")\n"
        s = launch(r.choice([[], [b"-"], [b"-", b"q"]]), src, cwd)
        if s.timeout and not s.stuck: return {"ok": True, "inconclusive": "watchdog"}
        if (s.status, s.out) != (0, b"end"): bad = "a script in stdin: status %s, stdout %r, stderr %r" % (s.status, s.out[:200], s.err[:200])
    shutil.rmtree(cwd, ignore_errors=True)
    return confirm(stdin_left, seed, {"ok": bad is None, "evals": 2, "distinct": [data[:100]], "stats": {"stdin_scripts": 1}, "desc": bad, "files": {"detail.txt": bad or ""}})


def run(c):
    c.rule = ("launches with random argument vectors (option look-alikes, empty, non-UTF-8, long) through every way of naming a script; scripts that print and then end in every way at every depth, their output and status observed through pipes, files and slow readers; "
              "--check of programs full of effects; invalid usage and unreadable scripts; distinct by command line or script")
    extra = {"hv": cmds.tool()}
    k = lambda f, q, t, cap=120: c.map(f, ["c19%s/%d/%d" % (f.__name__, c.seed, i) for i in range(c.n(q, t))], extra=extra, cap=c.cap(cap, cap * 8), chunk=4)
    for f, q, t in ((args, 2500, 40000), (ends, 2500, 40000), (check, 1200, 15000), (usage, 60, 500), (stdin_left, 100, 1000)):
        k(f, q, t)
        if c.viol: return
