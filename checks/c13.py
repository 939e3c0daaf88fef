"""C13: pipes, captures and redirections carry every byte."""
import os, random, re, shutil
from engine import common, cmds, diff, printer, vals
from engine.lang import *
from .c12 import confirm

SIZES = [0, 1, 2, 100, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 200000]


def size(r, big):
    if r.random() < 0.6: return r.choice(SIZES)
    return r.choice([r.randrange(1000), r.randrange(300000), big])


def speed(r, n):
    """chunk and delay such that the transfer stays short"""
    c = r.choice([1, 7, 512, 4096, 65536, 100000])
    if n > 3000 and c < 512: c = r.choice([512, 5000])
    d = r.choice([0, 0, 0, 200, 1500])
    if d and n // c > 100: d = 0 if n // c > 1000 else 50
    return c, d


class Case:
    def __init__(self, r, cwd):
        self.r, self.cwd, self.src, self.checks, self.n = r, cwd, bytearray(diff.HEAD), [], 0
        self.exp = b""             # records on stdout
        self.stdout = []           # what the shell's stdout must hold, in order, as bytes
        self.sig = []

    def V(self, tag, seed, n, extra=b""):
        c, d = speed(self.r, n)
        self.checks.append(("V", tag, n + len(extra)))
        return b"hv s V%s:%d:%d:%d:%d%s" % (tag, seed, n, c, d, b":" + extra.hex().encode() if extra else b"")

    def W(self, fd, seed, n):
        c, d = speed(self.r, n)
        return b"W%d:%d:%d:%d:%d" % (fd, seed, n, c, d)

    def path(self, f): return os.path.join(self.cwd, f)


def k_pipe(c, j, big):
    r = c.r; n = size(r, big); s = r.randrange(1 << 30)
    stages = [b"hv s " + c.W(1, s, n)]
    x = 0
    for _ in range(r.choice([0, 0, 1, 2, 3, 8])):
        k = r.randrange(256); x ^= k
        ch, d = speed(r, n); stages.append(b"hv s T%d:%d:%d" % (k, ch, d))
    if x: stages.append(b"hv s T%d" % x)
    stages.append(c.V(b"p%d" % j, s, n))
    head = r.random()
    if head < 0.2:
        with open(c.path("in%d" % j), "wb") as f: f.write(cmds.gen_bytes(s, n))
        stages[0] = b"hv s T0:%d < in%d" % (r.choice([1000, 65536]), j)
    t = b" | ".join(stages)
    kind = r.choice([b"{ %s }\n", b"{ %s }\n", b"let pp%d = ${ %%s }\n" % j, b"let aa%d = &{ %%s } aa%d.join()\n" % (j, j)])
    c.src += kind % t
    c.sig.append("pipe%d/%d" % (len(stages), n))


def k_capture(c, j, big):
    r = c.r
    parts = []; outs = []; errs = []
    # several writers in sequence, alternating streams
    s1, n1, s2, n2 = r.randrange(1 << 30), size(r, big), r.randrange(1 << 30), size(r, big)
    o = b"hv s " + c.W(1, s1, n1); e = b"hv s " + c.W(2, s2, n2)
    form = r.randrange(5)
    if form == 0: body = b"hv s %s %s" % (c.W(2, s2, n2), c.W(1, s1, n1))
    elif form == 1: body = o + b" ; " + e
    elif form == 2: body = e + b" | " + o
    elif form == 3: body = b"hv s x0 | " + e + b" | hv s x0 ; " + o
    else: body = o + b" | hv s %s T0" % c.W(2, s2, n2)
    fail = r.random() < 0.2
    c.src += b"let c%d = ${ %s%s }\n" % (j, body, b" ; hv s x3" if fail else b"")
    ctx = b"c%d.context" % j if fail else b"c%d" % j
    c.src += b"let so%d = %s.stdout let se%d = %s.stderr\nT(\"c%d\", [std.len(so%d), std.len(se%d)])\n" % (j, ctx, j, ctx, j, j, j)
    c.exp += b"c%d [i%d,i%d,]\n" % (j, n1, n2)
    c.src += b"{ %s << \"$so%d\" }\n" % (c.V(b"o%d" % j, s1, n1, b"\n"), j)
    c.src += b"{ %s << $se%d }\n" % (c.V(b"e%d" % j, s2, n2, b"\n"), j)
    c.sig.append("cap%d/%d/%d" % (form, n1, n2))


def k_files(c, j, big):
    r = c.r; f = b"f%d" % j
    content = b""
    if r.random() < 0.5:
        content = bytes(r.randrange(256) for _ in range(r.choice([0, 10, 5000])))
        with open(c.path(f.decode()), "wb") as h: h.write(content)
    for _ in range(r.randint(1, 4)):
        s, n = r.randrange(1 << 30), size(r, big)
        data = cmds.gen_bytes(s, n)
        app = r.random() < 0.6
        fd = r.choice([1, 1, 2])
        op = (b"" if fd == 1 and r.random() < 0.6 else b"%d" % fd) + (b">>" if app else b">") + r.choice([b"", b" "])
        if op[:1].isdigit(): op = r.choice([b"", b" "]) + op
        cmd = b"hv s %s %s%s" % (c.W(fd, s, n), op, f)
        if r.random() < 0.3 and fd == 1: cmd = b"hv s %s | hv s T0 %s%s" % (c.W(1, s, n), op, f)
        c.src += r.choice([b"{ %s }\n", b"{ %s }\n", b"let q%d_%d = ${ %%s } T(\"q\", [q%d_%d.stdout, q%d_%d.stderr])\n" % (j, c.n, j, c.n, j, c.n)]) % cmd
        if c.src.rstrip().endswith(b"])"): c.exp += b"q [s,s,]\n"
        c.n += 1
        content = content + data if app else data
    c.checks.append(("file", f.decode(), content))
    if r.random() < 0.5:
        c.src += b"{ hv s T0 < %s > %s-copy }\n" % (f, f); c.checks.append(("file", f.decode() + "-copy", content))
    c.sig.append("files/%d" % len(content))


def k_both(c, j, big):
    """stdout and stderr to the same place, and crosswise; order of the redirections matters."""
    r = c.r
    seq = []; text = b""
    for i in range(r.randint(1, 12)):
        ch = r.choice("OQ"); w = b"%s%d." % (ch.encode(), i); seq.append((ch, w)); text += b" %s%s" % (ch.encode(), w)
        if r.random() < 0.2: text += b" u%d" % r.choice([100, 2000])
    O = b"".join(w for ch, w in seq if ch == "O"); Q = b"".join(w for ch, w in seq if ch == "Q"); A = b"".join(w for _, w in seq)
    form = r.randrange(6)
    f = b"b%d" % j
    cmd = b"hv s" + text
    if form == 0: c.src += b"{ %s > %s 2>1 }\n" % (cmd, f); c.checks.append(("file", f.decode(), A))
    elif form == 1: c.src += b"let w%d = ${ %s 2>1 > %s } T(\"w\", [w%d.stdout, w%d.stderr])\n" % (j, cmd, f, j, j); c.exp += b"w [s%s,s,]\n" % Q.hex().encode(); c.checks.append(("file", f.decode(), O))
    elif form == 2: c.src += b"let w%d = ${ %s 2>1 } T(\"w\", [w%d.stdout, w%d.stderr])\n" % (j, cmd, j, j); c.exp += b"w [s%s,s,]\n" % A.hex().encode()
    elif form == 3: c.src += b"let w%d = ${ %s 1>2 } T(\"w\", [w%d.stdout, w%d.stderr])\n" % (j, cmd, j, j); c.exp += b"w [s,s%s,]\n" % A.hex().encode()
    elif form == 4: c.src += b"{ %s 2> %s > %s-o }\n" % (cmd, f, f); c.checks += [("file", f.decode(), Q), ("file", f.decode() + "-o", O)]
    else: c.src += b"{ %s 2>1 | hv s ib%d }\n" % (cmd, j); c.checks.append(("I", b"b%d" % j, A))
    c.sig.append("both%d/%s" % (form, "".join(ch for ch, _ in seq)))


def k_literal(c, j, big):
    r = c.r; n = size(r, big); s = r.randrange(1 << 30)
    form = r.randrange(4)
    if form == 0:
        t = bytes(r.randrange(256) for _ in range(min(n, 3000)))
        c.src += b"let t%d = %s\n{ hv s il%d << $t%d }\n" % (j, printer.str_token(t), j, j); c.checks.append(("I", b"l%d" % j, t + b"\n"))
    elif form == 1: c.src += b"{ hv s il%d << '' }\n" % j; c.checks.append(("I", b"l%d" % j, b"\n"))
    elif form == 2:     # huge literal, reader slow or gone
        c.src += b"let u%d = ${ hv s %s }\nlet uu%d = u%d.stdout\n{ %s << \"${uu%d}\" }\n" % (j, c.W(1, s, n), j, j, c.V(b"l%d" % j, s, n, b"\n"), j)
        c.src += b"{ hv s R1 x0 << \"${uu%d}\" }\n{ hv s d20 x0 << \"${uu%d}\" ; hv s Lend%d }\n" % (j, j, j)
        c.checks.append(("L", b"end%d" % j, None))
    else:
        with open(c.path("lf%d" % j), "wb") as f: f.write(b"file")
        c.src += b"{ hv s il%d << text < lf%d }\n{ hv s im%d < lf%d << 'a b' }\n" % (j, j, j, j)
        c.checks += [("I", b"l%d" % j, b"file"), ("I", b"m%d" % j, b"a b\n")]
    c.sig.append("lit%d/%d" % (form, n))


def k_none(c, j, big):
    """Broken chains: a stage without input or with its output elsewhere."""
    r = c.r
    form = r.randrange(3)
    if form == 0: c.src += b"{ hv s Ox > n%d | hv s in%d }\n" % (j, j); c.checks += [("I", b"n%d" % j, b""), ("file", "n%d" % j, b"x")]
    elif form == 1: c.src += b"{ no-such ? | hv s in%d ? }\n" % j; c.checks.append(("I", b"n%d" % j, b""))
    else: c.src += b"{ hv s Oa | hv s io%d Ob | hv s in%d }\n" % (j, j); c.checks += [("I", b"o%d" % j, b"a"), ("I", b"n%d" % j, b"b")]
    c.sig.append("none%d" % form)


def k_odd(c, j, big):
    """Contents that invite special treatment: only newlines, NULs, blanks, CR LF, BOM, invalid UTF-8."""
    r = c.r
    def odd():
        alpha = r.choice([b"\n", b"\0", b" ", b"\r\n", b"\n\0", b" \t\n", b"\xff", b"\xef\xbb\xbf", b"a\n", b"\x04", b"\x1a", b"\x1b[", b"\\n"])
        return bytes(r.choice(alpha) for _ in range(r.choice([1, 1, 2, 3, 10, 200]))) + r.choice([b"", b"", b"\n", b"x", b"\0"])
    def maybe(): return odd() if r.random() < 0.8 else b""
    def at(label, e, v): c.src += b"T(\"%s\", %s)\n" % (label, e); c.exp += label + b" s" + v.hex().encode() + b"\n"
    parts = []; out = err = b""
    for _ in range(r.choice([1, 1, 2, 4])):
        o, e = maybe(), maybe()
        parts.append(b"hv s" + (b" o" + o.hex().encode() if o else b"") + (b" e" + e.hex().encode() if e else b"") + r.choice([b"", b"", b" x3 ?", b" | hv s T0"])); out += o; err += e
    c.src += b"let k%d = ${ %s }\nlet l%d = if std.type(k%d) == \"error\" then k%d.context else k%d end\n" % (j, b"; ".join(parts), j, j, j, j)
    at(b"ko", b"l%d.stdout" % j, out); at(b"ke", b"l%d.stderr" % j, err)
    x = maybe()
    c.src += b"{ hv s o%s | hv s iq%d }\n" % (x.hex().encode() or b"0a", j); c.checks.append(("I", b"q%d" % j, x or b"\n"))
    if b"\0" not in x or True:
        c.src += b"let y%d = std.hex.decode(\"%s\")\n{ hv s ir%d << $y%d }\n" % (j, x.hex().encode(), j, j); c.checks.append(("I", b"r%d" % j, x + b"\n"))
    f = b"odd%d" % j; y = maybe()
    c.src += b"{ hv s e%s 2> %s ; hv s o%s >> %s ; hv s is%d < %s }\n" % (x.hex().encode() or b"20", f, y.hex().encode() or b"20", f, j, f)
    c.checks += [("file", f.decode(), (x or b" ") + (y or b" ")), ("I", b"s%d" % j, (x or b" ") + (y or b" "))]
    c.sig.append("odd/%s/%s" % (out[:40].hex(), err[:40].hex()))


KINDS = [k_odd, k_pipe, k_pipe, k_capture, k_capture, k_files, k_both, k_literal, k_none]


def case(item):
    seed, big = item
    r = random.Random(seed)
    cwd = common.scratch()
    c = Case(r, cwd)
    k = 5 if big < 1 << 21 else 2
    for j in range(k): r.choice(KINDS)(c, j, big)
    src = bytes(c.src)
    s = cmds.shot(src, cwd=cwd, timeout=60 if big < 1 << 21 else 200)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = None
    if s.r.stuck: bad = "deadlock: all processes asleep"
    elif s.r.status != 0: bad = "status %s: %s" % (s.r.status, s.r.err[:300])
    elif s.r.out != c.exp: bad = "script output: " + diff.first_diff(c.exp, s.r.out)
    V = {x.text(): x for x in s.recs if x.kind == "V"}
    I = {x.text(): x.strs(1)[0] for x in s.recs if x.kind == "I"}
    Ls = {x.text() for x in s.recs if x.kind == "L"}
    moved = 0
    for ch in c.checks:
        if bad: break
        if ch[0] == "V":
            x = V.get(ch[1])
            if x is None: bad = "stream %s never arrived" % ch[1].decode(); break
            want, got, off = map(int, x.f[1:4]); moved += got
            if off != -1 or got != ch[2]: bad = "stream %s: %d bytes arrived of %d, first difference at %d" % (ch[1].decode(), got, ch[2], off)
        elif ch[0] == "I":
            if I.get(ch[1]) != ch[2]: bad = "input %s: expected %r, read %r" % (ch[1].decode(), ch[2][:200], None if I.get(ch[1]) is None else I[ch[1]][:200])
        elif ch[0] == "L":
            if ch[1] not in Ls: bad = "command %s did not run" % ch[1].decode()
        else:
            try:
                with open(os.path.join(cwd, ch[1]), "rb") as f: got = f.read()
            except OSError: got = None
            moved += len(ch[2])
            if got != ch[2]: bad = "file %s: %s bytes, expected %d; first difference at %s" % (ch[1], None if got is None else len(got), len(ch[2]), fd(got or b"", ch[2]))
    res = {"ok": bad is None, "evals": len(c.checks), "distinct": c.sig, "desc": bad, "stats": {"bytes_checked": moved, "streams": len(c.checks)},
           "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": s.r.out, "records.txt": "\n".join(map(repr, s.recs))}}
    shutil.rmtree(cwd, ignore_errors=True)
    return confirm(case, item, res)


def fd(a, b):
    return next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))


def order(seed):
    """The script's own output and that of its commands, on the same streams, in program order; the
    shell's streams are pipes, files or one file for both."""
    r = random.Random(seed)
    src = b""; out = b""; err = b""; both = b""
    n = r.choice([5, 15, 40])
    stdin = b"the input of the script\n" * r.choice([1, 500])
    took = False
    for i in range(n):
        k = r.random(); w = b"_%d_" % i
        big = w + b"x" * r.choice([0, 0, 10, 3000, 9000, 70000])
        nl = b"\n" if r.random() < 0.5 else b""
        if k < 0.3:
            src += (b"std.println(\"%s\")\n" if nl else b"std.print(\"%s\")\n") % big; out += big + nl; both += big + nl
        elif k < 0.55: src += b"{ hv s O%s }\n" % w; out += w; both += w
        elif k < 0.65: src += b"{ hv s Q%s }\n" % w; err += w; both += w
        elif k < 0.75: src += b"{ hv s O%s O; ; hv s x0 | hv s T0 O%s }\n".replace(b"O;", b"O:") % (w, w); out += w + b":" + w; both += w + b":" + w
        elif k < 0.8:
            # several commands, each on either stream or both
            cs = []
            for j in range(r.randint(1, 4)):
                t = b"%s%d," % (w, j); f = r.choice([b"O", b"Q", b"OQ"])
                if f == b"OQ": cs.append(b"hv s O%s Q%s" % (t, t)); out += t; err += t; both += t + t
                else:
                    cs.append(b"hv s %s%s%s" % (f, t, r.choice([b"", b" x0", b" x3 ?"])))
                    if f == b"O": out += t
                    else: err += t
                    both += t
            if r.random() < 0.3: cs.append(b"hv s x0 | hv s T0 Q%sP | hv s T0 O%sP" % (w, w)); err += w + b"P"; out += w + b"P"; both += w + b"P" + w + b"P"
            src += r.choice([b"let z%d = &{ %s } z%d.join()\n" % (i, b"; ".join(cs), i), b"{ %s }\n" % b"; ".join(cs)])
        elif k < 0.85: src += b"let z%d = ${ hv s Ohid } std.print(z%d.stdout)\n" % (i, i); out += b"hid"; both += b"hid"
        elif k < 0.9 and not took:
            src += r.choice([b"{ hv s T0 }\n", b"{ hv s T0 | hv s T0 }\n", b"let z%d = &{ hv s T0 } z%d.join()\n" % (i, i)]); out += stdin; both += stdin; took = True
        elif k < 0.95: src += b"{ spawn0 hv x s O%s }\n" % w; out += w; both += w
        else: src += b"{ hv s Q%s 2>1 }\n" % w; out += w; both += w
    end = r.randrange(4)
    if end == 0: src += b"std.print(\"bye\") std.exit(5)\n"; out += b"bye"; both += b"bye"; st = 5
    elif end == 1: src += b"std.print(\"bye\") std.panic(\"p\")\n"; out += b"bye"; both += b"bye"; st = 127
    elif end == 2: src += b"std.print(\"bye\") { exec hv s Oexec x7 }\n"; out += b"byeexec"; both += b"byeexec"; st = 7
    else: st = 0
    cwd = common.scratch()
    mode = r.randrange(3)
    if mode == 0:
        s = cmds.shot(src, cwd=cwd, stdin=stdin); go, ge = s.r.out, s.r.err
    else:
        # stdout (and stderr) are regular files, reached through a child that opens them
        sh = "exec \"$0\" \"$@\" >out 2>err" if mode == 1 else "exec \"$0\" \"$@\" >out 2>&1"
        path = os.path.join(cwd, "t.hsh")
        with open(path, "wb") as f: f.write(src)
        e = dict(common.BASE_ENV); e.update(HV_LOG="/dev/null", PATH=os.path.dirname(common.W["hv"]) + ":/usr/bin:/bin")
        s = cmds.Shot(); s.r = common.run(["/bin/sh", "-c", sh, common.W["hush"], path], stdin=stdin, env=e, cwd=cwd); s.recs = []
        rd = lambda n: open(os.path.join(cwd, n), "rb").read()
        go = rd("out"); ge = rd("err") if mode == 1 else b""
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = None
    if s.r.status != st: bad = "status %s, expected %s: %s" % (s.r.status, st, ge[-300:])
    elif mode == 2:
        # (the report of the panic itself is not ordered with unfinished lines)
        if st == 127: go = re.sub(rb"(?m)Panic in [^\n]*\n", b"", go)
        if go != both: bad = "mixed output differs at byte %d: expected ...%r, got ...%r" % (fd(go, both), both[max(0, fd(go, both) - 20):][:80], go[max(0, fd(go, both) - 20):][:80])
    else:
        if go != out: bad = "stdout differs at byte %d: expected ...%r, got ...%r" % (fd(go, out), out[max(0, fd(go, out) - 20):][:80], go[max(0, fd(go, out) - 20):][:80])
        elif not (ge == err or (st == 127 and ge.startswith(err))): bad = "stderr: expected %r, got %r" % (err[:300], ge[:300])
    shutil.rmtree(cwd, ignore_errors=True)
    res = {"ok": bad is None, "evals": n, "distinct": [src], "desc": bad, "stats": {"ordered_writes": n},
           "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": go, "expected.txt": both if mode == 2 else out}}
    return confirm(order, seed, res)


def bulk(item):
    """Tens of megabytes through every kind of stream."""
    seed, n = item
    r = random.Random(seed)
    cwd = common.scratch()
    c = Case(r, cwd)
    s = r.randrange(1 << 30); form = r.randrange(6)
    w = lambda fd: b"W%d:%d:%d:65536:0" % (fd, s, n)
    v = lambda tag, extra=b"": (c.checks.append((tag, n + len(extra))), b"hv s V%s:%d:%d:65536:0%s" % (tag, s, n, b":" + extra.hex().encode() if extra else b""))[1]
    if form in (0, 1):
        fd = form + 1; f = [b"stdout", b"stderr"][form]
        c.src += b"let c = ${ hv s %s ; hv s Oo Qe }\nlet d = c.%s\nT(\"n\", std.len(d))\nlet e = std.substr(d, 0, %d)\n{ %s << $e }\n" % (w(fd), f, n, v(b"cap", b"\n")); c.exp += b"n i%d\n" % (n + 1)
    elif form == 2: c.src += b"{ hv s %s | hv s T0 | hv s T0 | %s }\n" % (w(1), v(b"pipe"))
    elif form == 3: c.src += b"{ hv s %s > big ; %s < big }\n" % (w(1), v(b"file"))
    elif form == 4: c.src += b"let h = &{ hv s %s 2>1 | %s } h.join()\n" % (w(2), v(b"async"))
    else:
        # the script's own output, then a command's, on the shell's stdout
        c.src += b"let c = ${ hv s W1:%d:%d:65536:0 }\nlet d = c.stdout\nstd.print(d)\n{ hv s W1:%d:%d:65536:0 }\nstd.print(d)\n" % (s, n, s, n); c.exp = cmds.gen_bytes(s, n) * 3
    src = bytes(c.src)
    q = cmds.shot(src, cwd=cwd, timeout=200)
    if q.r.timeout and not q.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = None
    V = {x.text(): x for x in q.recs if x.kind == "V"}
    if q.r.stuck: bad = "deadlock: all processes asleep"
    elif q.r.status != 0: bad = "status %s: %s" % (q.r.status, q.r.err[:300])
    elif q.r.out != c.exp: bad = "output of the script: %d bytes, expected %d, first difference at %d" % (len(q.r.out), len(c.exp), fd(q.r.out, c.exp))
    for tag, m in c.checks:
        if bad: break
        x = V.get(tag)
        if x is None: bad = "stream %s never arrived" % tag.decode()
        elif int(x.f[3]) != -1 or int(x.f[2]) != m: bad = "stream %s: %s bytes arrived of %d, first difference at %s" % (tag.decode(), x.f[2].decode(), m, x.f[3].decode())
    shutil.rmtree(cwd, ignore_errors=True)
    return confirm(bulk, item, {"ok": bad is None, "evals": 1, "distinct": ["bulk%d/%d" % (form, n)], "desc": bad, "stats": {"bulk_bytes": n}, "files": {"program.hsh": src, "stderr.txt": q.r.err[-2000:]}})


def turns(seed):
    """Commands that write to one file at the same time, in a given order of turns: appending goes to the end of the file, overwriting has a position of its own."""
    r = random.Random(seed)
    cwd = common.scratch()
    n = r.choice([2, 2, 3, 4, 6]); m = r.choice([4, 8, 16])
    owner = [r.randrange(n) for _ in range(m)]
    W = []      # (redirections, how, the position shared by its streams)
    over = r.random() < 0.4
    for i in range(n):
        op = b">" if over and r.random() < 0.5 else b">>"
        W.append((op, r.randrange(4)))
    ops = [[] for _ in range(n)]; plan = []
    for t, i in enumerate(owner):
        op, how = W[i]
        text = bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz") for _ in range(r.choice([1, 3, 7, 20]))) + b"%d" % t
        stream = b"O" if how == 0 else b"Q" if how == 1 else r.choice([b"O", b"Q"])
        ops[i].append(b"Gt%d %s%s Mt%d" % (t, stream, text, t + 1)); plan.append((i, stream, text))
    src = bytearray()
    for i in range(n):
        op, how = W[i]
        redir = {0: b"%s f" % op, 1: b"2%s f" % op, 2: b"%s f 2>1" % op, 3: b"2%s f 1>2" % op}[how]
        body = b"hv s Ms%d %s %s" % (i, b" ".join(ops[i]), redir)
        k = r.random()
        if k < 0.2: body = b"hv s x0 | " + body
        elif k < 0.4: body = body + b" | hv s T0"
        src += b"let h%d = &{ %s }\n" % (i, body)
    src += b"{ hv s %s Mt0 }\n" % b" ".join(b"Gs%d" % i for i in range(n))
    order = list(range(n)); r.shuffle(order)
    for i in order: src += b"h%d.join()\n" % i
    init = r.choice([None, b"", b"initial content\n"])
    if init is not None:
        with open(os.path.join(cwd, "f"), "wb") as f: f.write(init)
    data = bytearray(b"" if any(op == b">" for op, _ in W) else init or b""); pos = [0] * n
    for i, stream, text in plan:
        at = len(data) if W[i][0] == b">>" else pos[i]
        data[at:at + len(text)] = text; pos[i] = at + len(text)
    src = bytes(src)
    s = cmds.shot(src, cwd=cwd, timeout=60)
    try: got = open(os.path.join(cwd, "f"), "rb").read()
    except OSError: got = None
    shutil.rmtree(cwd, ignore_errors=True)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = None
    if s.r.stuck: bad = "deadlock: all processes asleep"
    elif s.r.status != 0: bad = "status %s: %s" % (s.r.status, s.r.err[:300])
    elif got != bytes(data): bad = "the file holds %r, expected %r" % (got and got[:400], bytes(data[:400]))
    res = {"ok": bad is None, "evals": m, "distinct": ["%d%s%s" % (n, [a.decode() + str(b) for a, b in W], owner)], "desc": bad, "stats": {"shared_file_writes": m},
           "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": got or b"", "expected.txt": bytes(data)}}
    return confirm(turns, seed, res)


def run(c):
    c.rule = ("random transfers through pipelines, captures, files, here-texts and the shell's own streams, sizes around pipe-buffer boundaries up to megabytes, with slow, fast and absent readers and writers; "
              "the tool verifies every stream byte by byte against its generator; deadlock = all processes asleep without progress; one evaluation per stream, distinct by topology and size")
    extra = {"hv": cmds.tool()}
    c.map(case, [("c13/%d/%d" % (c.seed, i), 700000) for i in range(c.n(800, 6000))], extra=extra, cap=c.cap(100, 1200))
    if c.viol: return
    c.map(order, ["c13o/%d/%d" % (c.seed, i) for i in range(c.n(300, 5000))], extra=extra, cap=c.cap(80, 900))
    if c.viol: return
    c.map(turns, ["c13t/%d/%d" % (c.seed, i) for i in range(c.n(200, 3000))], extra=extra, cap=c.cap(60, 900))
    if c.viol: return
    c.map(case, [("c13b/%d/%d" % (c.seed, i), c.n(3, 30) << 20) for i in range(c.n(16, 60))], extra=extra, cap=c.cap(60, 900))
    if c.viol: return
    c.map(bulk, [("c13k/%d/%d" % (c.seed, i), (i % 4 * 9 + 9 << 20) + i) for i in range(c.n(16, 60))], extra=extra, cap=c.cap(60, 900))
