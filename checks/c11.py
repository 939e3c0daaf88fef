"""C11: command arguments reach the program exactly as written."""
import os, random, re, shutil
from collections import Counter
from engine import common, cmds, printer, vals
from engine.lang import *
from engine.cmds import STAR, ANY, join_alt, basic_text

VALS = [b"", b" ", b"a b", b"*", b"%", b"?", b"~", b"~/", b"$HOME", b"$x", b"a;b", b"'", b'"', b"-n", b"--", b"\n", b"\t x ", b"a\\b", b"[a]", b"{1,2}", b"1", b"2", b"=", b"K=V", b">f", b"|",
        b"&", b"#c", b"\xff\xfe", b"\xc3\xa9", b"`id`", b"$(id)", b"!", b"a" * 5000, b"./x", b"../", b"%d%s"]


def scalars(r, n):
    out = []
    for i in range(n):
        k = r.random()
        if k < 0.65: v = r.choice(VALS)
        elif k < 0.75: v = bytes(r.randrange(1, 256) for _ in range(r.choice([1, 3, 20, 300])))
        else: v = r.choice([None, True, False, 0, -1, 42, I64_MIN, I64_MAX, 0.5, -0.0, 1e300, float("inf"), 3.0, 1e-7, Byte(97), Byte(32), Byte(42), Byte(255), Byte(39)])
        out.append((r.choice([b"v%d", b"var_%d", b"_x%d", b"nilly%d", b"X%d", b"in%d"]) % i, v))
    return out


def arrays(r, n):
    return [(b"arr%d" % i, Arr([v for _, v in scalars(r, r.choice([0, 1, 1, 2, 2, 3, 7]))])) for i in range(n)]


def frame(r, decls, body):
    """Put declarations and commands into different storage: globals, locals, captures, parameters, blocks."""
    k = r.randrange(6)
    lets = b"".join(b"let %s = %s\n" % d for d in decls)
    if k == 0: return lets + body
    if k == 1: return b"function main ()\n" + lets + body + b"nil\nend\nmain()\n"
    if k == 2: return lets + b"let pad = 1\nfunction main (a, b)\nlet loc = 5\n" + body + b"nil\nend\nmain(1, 2)\n"
    if k == 3:
        ps = b", ".join(n for n, _ in decls); vs = b", ".join(e for _, e in decls)
        return b"function main (%s)\nlet z = 1\n" % ps + body + b"nil\nend\nmain(%s)\n" % vs
    if k == 4: return b"function outer ()\n" + lets + b"function ()\nlet q = 0\nfunction ()\n" + body + b"nil\nend\nend\nend\nouter()()()\n"
    return b"if true then\nfor once in std.range(0, 1, 1) do\n" + lets + body + b"end\nend\n"


def setup(r):
    home = r.choice([b"/nonexistent-home", b"/h/with space", b"/h/*/[x]", b"/trailing/", b"/\xc3\xa9"])
    sc, ar = scalars(r, 6), arrays(r, 4)
    decls = [(n, vals.src(vals.build(v, r))) for n, v in sc + ar]
    return home, sc, ar, decls


def result(s, bad, n, distinct, src, what):
    return {"ok": bad is None, "evals": n, "distinct": distinct, "stats": {what: n}, "desc": bad,
            "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": s.r.out, "records.txt": "\n".join(map(repr, s.recs))}}


def argv(seed):
    r = random.Random(seed)
    home, sc, ar, decls = setup(r)
    w = cmds.Words(r, home, sc, ar)
    body = b""; expect = []
    for j in range(12):
        n = r.choice([0, 1, 2, 3, 5, 8]) if r.random() < 0.95 else 200
        text = b"hv a"; want = [[b"hv", b"a"]]
        k = r.random()      # what the words mean may change between the commands
        if k < 0.1:
            w.home = r.choice([b"/moved", b"/h 2", b"/h/*/", b"/\xc3\xa9/~"])
            body += b"std.export(\"HOME\", %s)\n" % vals.src(vals.build(w.home))
        elif k < 0.25 and w.scalars:
            i = r.randrange(len(w.scalars)); v = r.choice(scalars(r, 3))[1]; name = w.scalars[i][0]
            w.scalars = w.scalars[:i] + [(name, v)] + w.scalars[i + 1:]
            body += b"%s = %s\n" % (name, vals.src(vals.build(v)))
        elif k < 0.35 and w.arrays:
            i = r.randrange(len(w.arrays)); v = r.choice(arrays(r, 2))[1]; name = w.arrays[i][0]
            w.arrays = w.arrays[:i] + [(name, v)] + w.arrays[i + 1:]
            body += b"%s = %s\n" % (name, vals.src(vals.build(v)))
        if r.random() < 0.1:
            text += b" ~/z"; want.append([w.home + (b"" if w.home.endswith(b"/") else b"/") + b"z"])
        for _ in range(n):
            s, alts = w.word()
            text += w.sep() + s
            want.append([join_alt(a) for a in alts])
        if r.random() < 0.15: text += b" '2' > /dev/null"; want.append([b"2"])
        expect.append(want)
        kind = r.random()
        blk = b"{ %s }" % (text + (b" ; " if r.random() < 0.1 else b""))
        if kind < 0.1: blk = b"$" + blk
        elif kind < 0.2: blk = b"let j%d = &" % j + blk + b"\nj%d.join()" % j
        body += blk + b"\n"
    src = frame(r, decls, body)
    s = cmds.shot(src, env={"HOME": home.decode("utf-8")})
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    got = [x.strs() for x in s.recs if x.kind == "A"]
    bad = None
    if s.r.status != 0: bad = "status %s: %s" % (s.r.status, s.r.err[:400])
    for i, want in enumerate(expect):
        if bad: break
        if i >= len(got): bad = "command %d did not run" % i; break
        g = got[i]; at = 0
        for grp in want:
            seg = g[at:at + len(grp)]
            if Counter(seg) != Counter(grp): bad = "command %d: argument group %r arrived as %r (argv %r)" % (i, [x[:80] for x in grp[:8]], [x[:80] for x in seg[:8]], [x[:40] for x in g[:30]]); break
            at += len(grp)
        if not bad and at != len(g): bad = "command %d: extra arguments %r" % (i, g[at:at + 8])
    if not bad and len(got) != len(expect): bad = "%d commands ran, %d were written" % (len(got), len(expect))
    return result(s, bad, len(expect), [repr(g) for g in got], src, "argv_compared")


def order(seed):
    """A single array expands in the order of its elements, other arguments keep their places."""
    r = random.Random(seed)
    n = r.choice([1, 2, 3, 10, 300])
    a = [b"e%d-%s" % (i, r.choice(VALS[:8])) for i in range(n)]
    src = b"let a = %s\nlet i = [1, 2.5, nil, true, 'c', \"s\"]\n{ hv a pre $a post }\n{ hv a pre-${a}-post }\n{ hv a $a$i '' \"$i\" }\n{ hv a $i }\n" % vals.src(vals.build(Arr(a)))
    s = cmds.shot(src)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    got = [x.strs()[2:] for x in s.recs]
    it = [b"1", b"2.5", b"", b"true", b"c", b"s"]
    bad = None
    if len(got) != 4 or got[0] != [b"pre"] + a + [b"post"] or got[1] != [b"pre-" + x + b"-post" for x in a] or got[3] != it: bad = "array arguments arrived as %r" % [g[:10] for g in got]
    elif Counter(got[2][:len(a) * 6]) != Counter(x + y for x in a for y in it): bad = "product of arrays arrived as %r" % got[2][:20]
    return result(s, bad, 4, [src], src, "array_orders")


def single(seed):
    """Program names, redirection targets and environment values: exactly one item, byte for byte."""
    r = random.Random(seed)
    home, sc, ar, decls = setup(r)
    ar1 = [(n, v) for n, v in ar if len(v.a) == 1]
    multi = [(n, v) for n, v in ar if len(v.a) != 1]
    w = cmds.Words(r, home, sc, ar1)
    cwd = common.scratch()
    body = b""; checks = []
    used = {b"never-made"}
    def fname():
        while True:
            s, alts = w.word(home=0, arrays=0.1)
            if len(alts) != 1: continue
            v = join_alt(alts[0])
            if not v or len(v) > 200 or b"/" in v or v in (b".", b"..") or v in used or v.isdigit() or s.isdigit(): continue
            if v.startswith(b"+") and v[1:].isdigit(): continue
            used.add(v)
            return s, v
    for j in range(8):
        k = r.randrange(6)
        if k == 0:                       # program: a link to the tool under that name
            while True:
                s, alts = w.word(first=True, home=0)
                if len(alts) != 1: continue
                v = join_alt(alts[0])
                if v and len(v) < 200 and b"/" not in v and v not in (b".", b"..") and v not in used: break
            used.add(v)
            shutil.copy(common.W["hv"], os.path.join(os.fsencode(cwd), v))
            pre = r.choice([b"./", b"'./'", b'"."/', b"${dot}"])
            if r.random() < 0.3: pre = b"${here}"; v0 = os.fsencode(cwd) + b"/" + v
            else: v0 = b"./" + v
            body += b"{ %s%s a prog%d }\n" % (pre, s, j); checks.append(("prog", v0, j))
        elif k == 1:
            s, v = fname(); body += b"{ hv s Oout%d > %s }\n" % (j, s); checks.append(("file", v, b"out%d" % j))
        elif k == 2:
            s, v = fname()
            with open(os.path.join(os.fsencode(cwd), v), "wb") as f: f.write(b"old")
            body += b"{ hv s Onew%d %s>> %s }\n" % (j, r.choice([b"", b"1 "]), s); checks.append(("file", v, b"oldnew%d" % j))
        elif k == 3:
            s, v = fname()
            with open(os.path.join(os.fsencode(cwd), v), "wb") as f: f.write(b"input%d" % j)
            body += b"{ hv s ir%d < %s }\n" % (j, s); checks.append(("in", j, b"input%d" % j))
        elif k == 4:
            s, alts = w.word()
            while len(alts) != 1: s, alts = w.word()
            body += b"{ hv s ir%d << %s }\n" % (j, s); checks.append(("in", j, join_alt(alts[0]) + b"\n"))
        else:
            m = r.choice([1, 1, 2, 4]); text = b""; want = {}
            for q in range(m):
                s, alts = w.word(home=0)
                while len(alts) != 1: s, alts = w.word(home=0)
                key = b"EV%d_%d" % (j, q); kt = key
                if r.random() < 0.2: kt = b"$k%d_%d" % (j, q); body += b"let k%d_%d = \"%s\"\n" % (j, q, key)
                want[key] = join_alt(alts[0]); text += b"%s=%s%s" % (kt, s, w.sep())
            body += b"{ %shv s Eenv%d }\n" % (text, j); checks.append(("env", j, want))
    # not exactly one item: a panic, and the command does not run
    npan = 0; counts = []
    for n, v in multi[:3]:
        t = b"$" + n
        for tmpl in (b"%s a bad", b"hv a bad > %s", b"hv a bad >> %s", b"hv a bad < %s", b"hv a bad << %s", b"QQ=%s hv a bad", b"hv a bad 2> %s"):
            body += b"std.println(std.catch(function () { %s } end))\n" % (tmpl % t); npan += 1; counts.append(len(v.a))
    for tmpl in (b"no*such* a bad", b"hv a bad < no*such*", b"hv a bad > no*such*", b"QQ=no%%such hv a bad", b"hv a $dct bad", b"hv a bad $fun", b"hv a bad $err", b"hv a $nest bad", b"hv a bad 3> never-made", b"hv a bad > 7"):
        body += b"std.println(std.catch(function () { %s } end))\n" % tmpl.replace(b"%%", b"%"); npan += 1
    decls += [(b"dot", b'"./"'), (b"here", printer.str_token(os.fsencode(cwd) + b"/")), (b"dct", b"@[]"), (b"fun", b"std.len"), (b"err", b'std.error("e", 1)'), (b"nest", b"[[1]]")]
    src = frame(r, decls, body)
    s = cmds.shot(src, cwd=cwd, env={"HOME": home.decode("utf-8")})
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = None
    if s.r.status != 0: bad = "status %s: %s" % (s.r.status, s.r.err[:400])
    A = {x.strs()[-1]: x.strs() for x in s.recs if x.kind == "A"}
    I = {x.text(): x.strs(1)[0] for x in s.recs if x.kind == "I"}
    E = {x.text(): [bytes.fromhex(y.decode()) for y in x.f[1:]] for x in s.recs if x.kind == "E"}
    for c in checks:
        if bad: break
        if c[0] == "prog":
            g = A.get(b"prog%d" % c[2])
            if g is None: bad = "program %r was not run" % c[1]
            elif g[0] != c[1] or len(g) != 3: bad = "program %r ran as %r" % (c[1], g)
        elif c[0] == "file":
            try:
                with open(os.path.join(os.fsencode(cwd), c[1]), "rb") as f: got = f.read()
            except OSError as e: got = None
            if got != c[2]: bad = "file %r holds %r, expected %r" % (c[1], got, c[2])
        elif c[0] == "in":
            got = I.get(b"r%d" % c[1])
            if got != c[2]: bad = "input %d: expected %r, the command read %r" % (c[1], c[2][:200], None if got is None else got[:200])
        else:
            env = E.get(b"env%d" % c[1])
            if env is None: bad = "command with environment did not run"; break
            for k, v in c[2].items():
                if [e for e in env if e.startswith(k + b"=")] != [k + b"=" + v]: bad = "environment %r: expected %r, the command saw %r" % (k, v[:200], [e[:200] for e in env if e.startswith(k)])
    if not bad and b"bad" in [x for a in A.values() for x in a]: bad = "a command with an invalid item count ran"
    left = set(os.listdir(os.fsencode(cwd))) - used - {b"never-made"}
    if not bad and left: bad = "unexpected files %r" % left
    lines = s.r.out.count(b"caught panic: ")
    if not bad and (lines != npan): bad = "%d of %d invalid commands panicked: %r" % (lines, npan, s.r.out[-1500:])
    # the panic tells how many items there were
    for l, n in zip([l for l in s.r.out.split(b"\n") if b"caught panic: " in l], counts):
        told = re.findall(rb"\d+", l.rsplit(b"): ", 1)[-1])
        if not bad and told != [b"%d" % n]: bad = "a command with %d items where one is needed: %r" % (n, l)
    res = result(s, bad, len(checks) + npan, [src], src, "single_items")
    if not bad: shutil.rmtree(cwd, ignore_errors=True)
    return res


NAMES = ["a", "b", "ab", "abc", "a.txt", "b.txt", "a b", "a*b", "a?b", "[a]", "a[b", "x]y", "caf\u00e9", "\u20ac", "-n", "a;b", "it's", "q\"q", "nl\nx", ".hidden", "~", "a%b", "{a,b}", "A", "aa", "aaa", "back\\slash", "!x", "a=b", "#c"]


def globs(seed):
    r = random.Random(seed)
    cwd = common.scratch()
    root = os.fsencode(cwd)
    def fill(d, depth):
        for n in r.sample(NAMES, r.randint(1, 10)):
            p = os.path.join(d, n.encode())
            if depth < 2 and r.random() < 0.3: os.mkdir(p); fill(p, depth + 1)
            else: open(p, "wb").close()
        # what else can lie there: links leading nowhere or in a circle (with names no literal part spells), to files and directories, pipes
        for n, t in r.sample([("D~1", "nowhere"), ("D2.x", "D2.x"), ("D3", "D~1"), ("D4", "/dev/null"), ("D5-.t", ".")], r.randint(0, 3)): os.symlink(t, os.path.join(d, n.encode()))
        if r.random() < 0.2: os.mkfifo(os.path.join(d, b"DP"))
    fill(root, 0)
    lits = [(b"a", b"a"), (b"b", b"b"), (b".txt", b".txt"), (b"'*'", b"*"), (b"'%'", b"%"), (b'"?"', b"?"), (b"'['", b"["), (b"']'", b"]"), (b"\\ ", b" "), (b"'{a'", b"{a"), (b"\xc3\xa9", b"\xc3\xa9"), (b"/", b"/"), (b"/", b"/"),
            (b"$star", b"*"), (b"$brk", b"[a]"), (b'"$q"', b"?"), (b"-", b"-"), (b"x", b"x"), (b"\\;", b";")]
    body = b""; expect = []; globbed = {}
    for j in range(14):
        src = b""; alt = []
        absolute = r.random() < 0.2
        if absolute: src = b"$here/"; alt = [root + b"/"]
        elif r.random() < 0.1: src = b"~/"; alt = [root + b"/"]
        texts = [src] if src else []
        n = r.randint(1, 5)
        for i in range(n):
            if r.random() < 0.5: t, v = r.choice([(b"*", STAR), (b"*", STAR), (b"%", ANY)])
            else: t, v = r.choice(lits)
            if v == b"/" and (not alt or alt[-1] == b"/" or (isinstance(alt[-1], bytes) and alt[-1].endswith(b"/")) or i == n - 1): continue
            if t.startswith(b"$") and r.random() < 0.5: t = b"${%s}" % t[1:]
            if src and not src.endswith((b"}", b'"', b"'")) and src.rpartition(b"$")[2].isalnum() and b"$" in src and (t[:1].isalnum() or t[:1] >= b"\x80"): t = b"''" + t
            src += t; alt.append(v); texts.append(t)
        if not any(x in (STAR, ANY) for x in alt): src += b"*"; alt.append(STAR); texts.append(b"*")
        if isinstance(alt[-1], bytes) and alt[-1].endswith(b"/"): src += b"*"; alt.append(STAR); texts.append(b"*")
        # `**` and dot components have meanings of their own
        flat = b"".join(b"*" if x == STAR else b"\x01" if x == ANY else x.replace(b"*", b"\x02") for x in alt)
        if b"**" in flat or any(c.startswith(b".") and (b"*" in c or b"\x01" in c) for c in flat.split(b"/")) or b"//" in flat: continue
        # an array glued into the pattern: its elements are never patterns
        lead = 1 if absolute or src.startswith(b"~") else 0
        alts = [alt]
        if r.random() < 0.35:
            name, els = r.choice([(b"two", [b"a", b"b"]), (b"pats", [b"*", b"?", b"[a]"]), (b"pats2", [b"a", b"*b"]), (b"pat1", [b"*"]), (b"brks", [b"[a]", b"[", b"]"])])
            pos = r.choice([lead, len(alt), r.randint(lead, len(alt))]) if len(texts) == len(alt) else len(alt)
            texts[pos:pos] = [b"${%s}" % name]
            src = b"".join(texts)
            alts = [alt[:pos] + [e] + alt[pos:] for e in els]
            flats = [b"".join(b"*" if x == STAR else b"\x01" if x == ANY else x.replace(b"*", b"\x02") for x in q) for q in alts]
            if any(b"**" in f or any(c.startswith(b".") and (b"*" in c or b"\x01" in c) for c in f.split(b"/")) or b"//" in f for f in flats): continue
        body += b"{ hv a BEG%d %s END }\n" % (j, src)
        want = Counter(); lib = Counter()
        for q in alts:
            for p in cmds.expand(q, cwd): want[os.path.normpath(p)] += 1
        expect.append((j, want, src))
        # the same pattern given to std.glob, in which ? is any character and [..] a class
        pat = b"".join(b"*" if x == STAR else b"?" if x == ANY else b"".join(b"[" + bytes([c]) + b"]" if c in b"*?[]" or (0x21 <= c < 0x7f and c not in b"/!^-]" and r.random() < 0.2) else bytes([c]) for c in x) for x in alts[0])
        for p in cmds.expand(alts[0], cwd): lib[os.path.normpath(p)] += 1
        body += b"for p in std.iter(std.glob(%s)) do std.println(\"G%d \" ++ std.hex.encode(p)) end\n" % (printer.str_token(pat), j)
        globbed[j] = (lib, pat)
    pre = b"let star = \"*\" let brk = \"[a]\" let q = \"?\" let tilde = \"~\" let here = %s let two = [\"a\", \"b\"] let pats = [\"*\", \"?\", \"[a]\"] let pats2 = [\"a\", \"*b\"] let pat1 = [\"*\"] let brks = [\"[a]\", \"[\", \"]\"]\n" % printer.str_token(root)
    # non-patterns are never expanded
    body += b"{ hv a PLAIN '*' \"*\" $star \"$star\" ${q} '%' \"a%\" $brk ~ a~/b '~/' ''~/x \"\"~/x 'q'~/x \"q\"~/ $q~/x ${star}~/x =~/x \"~\"/x '~'/x ~'/x' ${tilde}/x $tilde \\;~/x ~x/y ~~/z }\n"
    for bp in (b'"a**b"', b'"[a"', b'"x/***"', b'"\xff*"'): body += b"std.println(\"bad-\" ++ std.type(std.glob(%s)))\n" % bp
    src = pre + body
    s = cmds.shot(src, cwd=cwd, env={"HOME": cwd})
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = None
    if s.r.status != 0: bad = "status %s: %s" % (s.r.status, s.r.err[:400])
    A = {}
    for x in s.recs:
        v = x.strs()
        if len(v) > 2: A[v[2]] = v[3:]
    hits = 0
    for j, want, text in expect:
        if bad: break
        g = A.get(b"BEG%d" % j)
        if g is None or g[-1:] != [b"END"]: bad = "pattern command %d did not run as written: %r" % (j, g); break
        got = Counter(os.path.normpath(p) for p in g[:-1])
        hits += sum(want.values())
        if got != want: bad = "pattern %r expanded to %r, the matching paths are %r" % (text, sorted(got.elements())[:12], sorted(want.elements())[:12]); break
        for p in g[:-1]:
            if not p.startswith((b"/", b"./")): bad = "pattern %r expanded to %r, which could be taken for an option" % (text, p)
    got = {j: Counter() for j in globbed}
    for l in s.r.out.split(b"\n"):
        w = l.split(b" ")
        if len(w) == 2 and w[0][:1] == b"G": got[int(w[0][1:])][os.path.normpath(bytes.fromhex(w[1].decode()))] += 1
    for j, (lib, pat) in globbed.items():
        if not bad and got[j] != lib: bad = "std.glob(%r) returned %r, the matching paths are %r" % (pat, sorted(got[j].elements())[:12], sorted(lib.elements())[:12])
    if not bad and s.r.out.count(b"bad-error\n") != 4: bad = "a malformed pattern did not yield an error: %r" % s.r.out[-300:]
    if not bad and A.get(b"PLAIN") != [b"*", b"*", b"*", b"*", b"?", b"%", b"a%", b"[a]", b"~", b"a~/b", b"~/", b"~/x", b"~/x", b"q~/x", b"q~/", b"?~/x", b"*~/x", b"=~/x", b"~/x", b"~/x", b"~/x", b"~/x", b"~", b";~/x", b"~x/y", b"~~/z"]: bad = "literals were expanded: %r" % A.get(b"PLAIN")
    res = result(s, bad, len(expect) + 1, [repr(sorted(w)) for _, w, _ in expect], src, "patterns")
    res["stats"]["matched_paths"] = hits
    if not bad: shutil.rmtree(cwd, ignore_errors=True)
    return res


def nul(seed):
    """Arguments that cannot exist (NUL bytes) fail the command; they are never truncated."""
    src = b'let z = "a\\0b"\nlet e = { hv a one $z }\nT("e", std.type(e))\nlet f = { hv a two \'x\\0\' ? ; hv a three }\nT("f", std.type(f))\nlet g = { E=$z hv a four }\nT("g", std.type(g))\n'
    from engine import diff
    src = diff.HEAD + src
    s = cmds.shot(src)
    got = [x.strs()[2:] for x in s.recs]
    bad = None
    if got != [[b"three"]] or s.r.out.count(b"s6572726f72") != 3 or s.r.status != 0: bad = "commands with NUL bytes: ran %r, printed %r, status %s" % (got, s.r.out, s.r.status)
    return result(s, bad, 3, [src], src, "nul_args")


def large(seed):
    r = random.Random(seed)
    big = bytes(r.choice(b"ab *'\n") for _ in range(r.choice([70000, 120000])))
    n = r.choice([2000, 5000])
    src = b"let big = %s\nlet many = [] for i in std.range(0, %d, 1) do std.push(many, i) end\n{ hv a \"$big\" }\n{ hv a $many }\n{ hv a %s }\n" % (
        printer.str_token(big), n, b" ".join(b"'w %d'" % i for i in range(n)))
    s = cmds.shot(src)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    got = [x.strs()[2:] for x in s.recs]
    bad = None
    if got != [[big], [b"%d" % i for i in range(n)], [b"w %d" % i for i in range(n)]]: bad = "large argument lists do not arrive: %r" % [len(g) for g in got]
    return result(s, bad, 3, [src], src, "large_argvs")


def crowd(seed):
    """A directory of very many entries."""
    r = random.Random(seed)
    cwd = common.scratch(); n = r.choice([300, 1500, 5000])
    os.mkdir(os.path.join(cwd, "d"))
    for i in range(n): open(os.path.join(cwd, "d", r.choice(["f%d", ".h%d", "%d.x"]) % i), "wb").close()
    want = sorted(b"./d/" + os.fsencode(x) for x in os.listdir(os.path.join(cwd, "d")))
    src = b"{ hv a d/* }\n{ hv a %s/d/* }\nstd.println(std.len(std.glob(\"d/*\")))\n" % os.fsencode(cwd)
    s = cmds.shot(src, cwd=cwd)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    got = [x.strs()[2:] for x in s.recs]
    bad = None
    if len(got) != 2 or sorted(got[0]) != want or sorted(got[1]) != sorted(os.fsencode(cwd) + x[1:] for x in want) or s.r.out != b"%d\n" % n:
        bad = "patterns matching %d paths gave %r arguments and %r" % (n, [len(g) for g in got], s.r.out[:100])
    res = result(s, bad, 3, [src], src, "crowded_directories")
    if not bad: shutil.rmtree(cwd, ignore_errors=True)
    return res


NONUTF8 = b"n\xff.q"


def nonutf8(_):
    """Files whose names are not UTF-8, in the current directory and below a directory with such a name."""
    cwd = common.scratch()
    os.mkdir(os.path.join(os.fsencode(cwd), b"d\xff")); os.mkdir(os.path.join(cwd, "d"))
    for name in (b"a.q", NONUTF8, b"d\xff/b.q", b"d/b.q"): open(os.path.join(os.fsencode(cwd), name), "wb").close()
    src = b'{ hv a *.q }\n{ hv b d*/b.q }\nfor p in std.iter(std.glob("*.q")) do std.println(p) end\n'
    s = cmds.shot(src, cwd=cwd)
    if s.r.timeout and not s.r.stuck: return None
    got = [sorted(x.strs()[2:]) for x in s.recs] + [sorted(s.r.out.splitlines())]
    ascii_ = [[b"./a.q"], [b"./d/b.q"], [b"a.q"]]
    full = [sorted([b"./a.q", b"./" + NONUTF8]), sorted([b"./d/b.q", b"./d\xff/b.q"]), sorted([b"a.q", NONUTF8])]
    ok = s.r.status == 0 and len(got) == 3
    res = {"fine": ok and got == full, "known": ok and got != full and all(g in (x, y) for g, x, y in zip(got, ascii_, full)),
           "desc": "patterns over names that are not UTF-8 gave %r, status %s" % (got, s.r.status), "files": {"program.hsh": src}}
    shutil.rmtree(cwd, ignore_errors=True)
    return res


def run(c):
    c.rule = ("random commands (all quotings, escapes, glued parts, variables of every scalar type and of arrays, patterns over random file trees with hostile names, ~/ with hostile homes) in plain, capture and async blocks and every kind of variable storage; "
              "the started program records its argv, environment and files; one evaluation per command, distinct by recorded argv or program")
    extra = {"hv": cmds.tool()}
    n = c.n(900, 8000)
    for f, k in ((argv, n), (single, n), (globs, n), (order, n // 10), (nul, 1), (large, n // 50 + 2), (crowd, n // 60 + 2)):
        c.map(f, ["c11/%s/%d/%d" % (f.__name__, c.seed, i) for i in range(k)], extra=extra, cap=c.cap(60, 900))
        if c.viol: return
    c.probe("glob-nonutf8", nonutf8, None, extra)
