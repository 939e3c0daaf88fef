"""C16: environment and working directory."""
import os, random, shutil
from engine import common, cmds, diff, printer, vals
from engine.lang import *
from .c12 import confirm, strip, pretty

KEYS = [b"A", b"B", b"LONG_NAME_1", b"x", b"a.b", b"sp ace", b"caf\xc3\xa9", b"\xff\xfe", b"-d", b"1", b"TERM", b"a:b", b"nl\nx"]


RAW = os.fsdecode(b"raw\xff\xfe\x80")


def value(r):
    k = r.random()
    if k < 0.15: return b""
    if k < 0.5: return bytes(r.choice(b"abcXYZ/:.-_ 0") for _ in range(r.randint(1, 12)))
    if k < 0.9: return bytes(r.randint(1, 255) for _ in range(r.randint(1, 20)))
    return r.choice([b"a=b", b"=", b"x\ny", b"'q' \"w\" $A ${B} *", b"z" * 5000, b" lead and trail "])


class Sim:
    def __init__(self, r, cwd, env):
        self.r, self.env, self.cwd = r, dict(env), os.path.realpath(cwd)
        self.root = self.cwd
        self.src = bytearray(diff.HEAD); self.exp = []; self.recs = []; self.n = 0; self.files = []
        self.status = 0

    def T(self, label, expr, want):
        self.src += b"T(\"%s\", %s)\n" % (label.encode(), expr); self.exp.append((label, want))

    def s(self, b): return printer.str_token(b)

    def lit(self, b):
        """A literal for a word of a command."""
        r = self.r
        if r.random() < 0.5 and all(c in b"abcdefghijklmnopqrstuvwxyzXYZ/:._-0123456789" for c in b) and b: return b
        if r.random() < 0.5 or any(c in b"'\\" for c in b) and r.random() < 0.7:
            self.n += 1
            self.src += b"let w%d = %s\n" % (self.n, self.s(b))
            return r.choice([b"$w%d", b"${w%d}", b"\"$w%d\""]) % self.n
        return b"'" + b.replace(b"\\", b"\\\\").replace(b"'", b"\\'") + b"'"


def op_export(m):
    r = m.r; k = r.choice(KEYS + [b"PATH2", b"HOME"]); v = value(r)
    if k == b"HOME": v = r.choice([b"/a b", b"/h/", b"rel", b"", b"/x*y", b"/caf\xc3\xa9"])
    bad = r.random() < 0.15
    if bad:
        k, v = r.choice([(b"", b"v"), (b"a=b", b"v"), (b"=", b""), (b"A", b"nul\0in"), (b"A\0", b"x"), (b"=A", b"v")])
        m.T("bad", b"std.type(std.export(%s, %s))" % (m.s(k), m.s(v)), b"error")
    else:
        m.T("export", b"std.export(%s, %s)" % (m.s(k), m.s(v)), None); m.env[k] = v


def op_env(m):
    k = m.r.choice(KEYS + [b"PATH", b"HOME", b"", b"nope", b"a", b"LONG_NAME_", b"MANY_%d" % m.r.randrange(300)])
    m.T("env", b"std.env(%s)" % m.s(k), m.env.get(k))


def assigns(m):
    """-> (text, env of that command)"""
    r = m.r; env = dict(m.env); t = b""
    for i in range(r.choice([0, 0, 1, 1, 2, 3]) if r.random() < 0.97 else r.choice([20, 40, 70, 150])):
        k = r.choice([b"A", b"B", b"LONG_NAME_1", b"x", b"new", b"TERM"]) if i < 5 else b"V%d" % r.randrange(200); v = value(r)
        w = m.lit(v)
        if r.random() < 0.25:
            m.n += 1; k = r.choice(KEYS); m.src += b"let k%d = %s\n" % (m.n, m.s(k)); t += b"$k%d=%s " % (m.n, w)
        else: t += k + b"=" + w + b" "
        env[k] = v
    return t, env


def op_command(m):
    r = m.r; m.n += 1; n = m.n
    form = r.randrange(7)
    if form in (0, 1, 2):
        t, env = assigns(m)
        body = t + b"hv s Ee%d ce%d" % (n, n); m.recs.append((b"e%d" % n, env, m.cwd))
        m.src += [b"{ %s }\n", b"let c%d = ${ %%s }\n" % n, b"let h%d = &{ %%s } h%d.join()\n" % (n, n)][form] % body
    elif form == 3:
        t, env = assigns(m); t2, env2 = assigns(m)
        m.src += b"{ %shv s Ee%d ce%d | hv s Ef%d cf%d | %shv s Eg%d cg%d ; hv s Ei%d ci%d }\n" % (t, n, n, n, n, t2, n, n, n, n)
        m.recs += [(b"e%d" % n, env, m.cwd), (b"f%d" % n, dict(m.env), m.cwd), (b"g%d" % n, env2, m.cwd), (b"i%d" % n, dict(m.env), m.cwd)]
    elif form == 4:
        name = r.choice([b"name", b"-x", b"a b", b"", b"/bin/other", b"\xff\x01"])
        args = [value(r) for _ in range(r.choice([0, 1, 3]))]
        m.src += b"let nm%d = %s let ar%d = [%s]\n{ spawn0 hv $nm%d a $ar%d }\n" % (n, m.s(name), n, b", ".join(map(m.s, args)), n, n)
        m.recs.append(("A", [name, b"a"] + args))
        t, env = assigns(m)
        m.src += b"{ %sspawn0 hv zero s Ee%d ce%d ; hv s Ef%d }\n" % (t, n, n, n); m.recs += [(b"e%d" % n, env, m.cwd), (b"f%d" % n, dict(m.env))]
    elif form == 5:      # a failed command changes nothing
        t, env = assigns(m)
        m.src += b"{ %sno-such-program ? ; hv s Ee%d ce%d }\n" % (t, n, n); m.recs.append((b"e%d" % n, dict(m.env), m.cwd))
    else:                # home follows the environment
        home = m.env.get(b"HOME")
        if home is None or not home: return
        m.src += b"{ hv a home%d ~/q }\n" % n
        m.recs.append(("A", [b"hv", b"a", b"home%d" % n, home + (b"q" if home.endswith(b"/") else b"/q")]))


def op_path(m):
    """Programs are searched in the current PATH."""
    n = m.n = m.n + 1
    d = os.path.join(m.root, "bin%d" % n); os.mkdir(d); os.symlink(common.W["hv"], os.path.join(d, "mytool%d" % n))
    m.T("notfound", b"({ mytool%d a found%d }).context.status" % (n, n), 127)
    m.src += b"std.export(\"PATH\", \"%s:\" ++ std.env(\"PATH\"))\n{ mytool%d a found%d }\n" % (d.encode(), n, n)
    m.env[b"PATH"] = d.encode() + b":" + m.env[b"PATH"]
    m.recs.append(("A", [b"mytool%d" % n, b"a", b"found%d" % n]))


def op_cd(m):
    r = m.r
    p = r.choice(["d1", "d1/d2", "..", ".", "sp ace", "link", "caf\u00e9", RAW, RAW, RAW + "/nl\nx", " ", "-d", "~", "$x*", "no-such", "file", "d1/../d1", "", "../..", m.root, m.root + "/d1/d2", "deep/" * 3 + "deep"])
    full = os.path.join(m.cwd, p) if p else None
    ok = bool(p) and os.path.isdir(full)
    real = os.path.realpath(full) if ok else m.cwd
    if not real.startswith(m.root): return        # stay inside the scratch tree
    b = os.fsencode(p); form = r.randrange(3)
    if form == 0: m.T("cd", b"std.type(std.cd(%s))" % m.s(b), b"nil" if ok else b"error")
    elif form == 1: m.T("cd", b"std.type(cdto(%s))" % m.s(b), b"nil" if ok else b"error")
    else:
        m.n += 1; n = m.n
        m.src += b"let p%d = %s\n" % (n, m.s(b))
        t, _ = assigns(m)
        m.T("cd", b"std.type({ %scd \"$p%d\" ; hv s ci%d Ei%d })" % (t, n, n, n), b"nil" if ok else b"error")
        m.cwd = real
        if ok: m.recs.append((b"i%d" % n, dict(m.env), real))
    m.cwd = real


def op_cwd(m):
    m.T("cwd", b"std.cwd()", os.fsencode(m.cwd))


def op_file(m):
    n = m.n = m.n + 1
    m.src += b"{ hv s Ox%d > out%d }\n" % (n, n); m.files.append((os.path.join(m.cwd, "out%d" % n), b"x%d" % n))
    m.T("glob", b"std.len(std.glob(\"out%d\"))" % n, 1)
    m.src += b"{ hv a glob%d out%d* }\n" % (n, n); m.recs.append(("A", [b"hv", b"a", b"glob%d" % n, b"./out%d" % n]))
    m.src += b"{ hv s T0 < out%d > copy%d }\n" % (n, n); m.files.append((os.path.join(m.cwd, "copy%d" % n), b"x%d" % n))


def op_end(m):
    r = m.r; n = m.n = m.n + 1
    k = r.randrange(4)
    if k == 0:
        t, env = assigns(m)
        m.src += b"{ %sexec hv s Ee%d ce%d x7 }\nT(\"never\", 1)\n{ hv s Lnever }\n" % (t, n, n); m.status = 7; m.recs.append((b"e%d" % n, env, m.cwd))
    elif k == 1:
        name = r.choice([b"nm", b"a b", b"", b"\xc3\xa9"]); args = [value(r) for _ in range(r.choice([0, 2]))]
        m.src += b"let nm%d = %s let ar%d = [%s]\n{ exec0 hv $nm%d a $ar%d }\nT(\"never\", 1)\n" % (n, m.s(name), n, b", ".join(map(m.s, args)), n, n)
        m.recs.append(("A", [name, b"a"] + args))
    elif k == 2:
        t, env = assigns(m)
        m.T("execfail", b"({ %sexec no-such-program a b }).context.status" % t, 127); m.T("still", b"1", 1)
        m.src += b"{ hv s Ee%d ce%d }\n" % (n, n); m.recs.append((b"e%d" % n, dict(m.env), m.cwd))


OPS = [op_export] * 4 + [op_env] * 4 + [op_command] * 5 + [op_path] + [op_cd] * 5 + [op_cwd] * 3 + [op_file] * 2


def case(seed):
    r = random.Random(seed)
    cwd = os.path.realpath(common.scratch())
    for d in ("d1/d2", "sp ace", "caf\u00e9", RAW + "/nl\nx", " ", "-d", "~", "$x*", "deep/deep/deep/deep"): os.makedirs(os.path.join(cwd, d))
    os.symlink("d1/d2", os.path.join(cwd, "link"))
    with open(os.path.join(cwd, "file"), "w") as f: f.write("x")
    env = {k: value(r) for k in r.sample(KEYS, r.randint(0, 6))}
    # the exact environment of the shell
    full = {k.encode(): v.encode() for k, v in common.BASE_ENV.items()}
    full[b"PATH"] = (os.path.dirname(common.W["hv"]) + ":/usr/bin:/bin").encode()
    log = os.path.join(common.W["tmp"], "hvlog-" + os.path.basename(cwd)); full[b"HV_LOG"] = log.encode()
    full.update(env)
    if r.random() < 0.12:
        for i in range(r.choice([40, 64, 65, 130, 300])): full[b"MANY_%d" % i] = value(r)
    if r.random() < 0.1: full.pop(b"HOME", None)
    m = Sim(r, cwd, full)
    m.src += b"let cdto = function (d) { cd $d } end\n"
    for _ in range(r.choice([5, 15, 30])): r.choice(OPS)(m)
    op_end(m)
    src = bytes(m.src)
    e = {os.fsdecode(k): os.fsdecode(v) for k, v in full.items()}
    for k in common.BASE_ENV: e.setdefault(k, None)
    s = cmds.shot(src, cwd=cwd, env=e)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = None
    if s.r.status != m.status: bad = "status %s, expected %s: %s" % (s.r.status, m.status, s.r.err[:300])
    out = norm_output(s.r.out).split(b"\n")
    for (lab, want), line in zip(m.exp, out):
        if bad: break
        a, _, v = line.partition(b" ")
        try: got = strip(vals.parse(v))
        except (ValueError, IndexError): bad = "unreadable %r" % line[:200]; break
        if a.decode("utf-8", "replace") != lab or vals.ident(got) != vals.ident(want): bad = "%s: expected %s, got %s %s" % (lab, pretty(want), a, pretty(got))
    if not bad and len(out) != len(m.exp) + 1: bad = "%d records, expected %d" % (len(out) - 1, len(m.exp))
    E = {x.text(): sorted(bytes.fromhex(y.decode()) for y in x.f[1:]) for x in s.recs if x.kind == "E"}
    D = {x.text(): x.text(1) for x in s.recs if x.kind == "D"}
    A = [x.strs() for x in s.recs if x.kind == "A"]
    for q in m.recs:
        if bad: break
        if q[0] == "A":
            if q[1] not in A: bad = "expected a program started with %r; started were %r" % (q[1], A)
            else: A.remove(q[1])
            continue
        tag, env = q[0], q[1]
        if tag not in E: bad = "command %s did not run" % tag.decode(); break
        want = sorted(k + b"=" + v for k, v in env.items())
        if E[tag] != want:
            bad = "environment of command %s: missing %r, unexpected %r" % (tag.decode(), [x[:100] for x in want if x not in E[tag]][:5], [x[:100] for x in E[tag] if x not in want][:5])
            if not bad: bad = "duplicated variables"
        if len(q) > 2 and D.get(tag) != os.fsencode(q[2]): bad = "directory of command %s: expected %r, got %r" % (tag.decode(), q[2], D.get(tag))
    if not bad and A: bad = "unexpected programs started: %r" % A
    for p, data in m.files:
        if bad: break
        try:
            with open(p, "rb") as f: got = f.read()
        except OSError: got = None
        if got != data: bad = "file %s: expected %r, found %r" % (p, data, got)
    res = {"ok": bad is None, "evals": len(m.exp) + len(m.recs), "distinct": [src[len(diff.HEAD):]], "desc": bad,
           "stats": {"environments": len(E), "argvs": len(A), "values": len(m.exp), "files": len(m.files)},
           "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": s.r.out[-3000:], "records.txt": "\n".join(map(repr, s.recs))}}
    shutil.rmtree(cwd, ignore_errors=True)
    return confirm(case, seed, res)


def lookup(seed):
    """Which program a name denotes follows PATH, the directory and the files, as they are at that moment."""
    r = random.Random(seed)
    cwd = os.path.realpath(common.scratch())
    dirs = ["d%d" % i for i in range(4)]; names = ["p%d" % i for i in range(3)]
    have = set()
    for d in dirs: os.mkdir(os.path.join(cwd, d)); os.mkdir(os.path.join(cwd, d, "sub"))
    def make(d, n):
        with open(os.path.join(cwd, d, n), "w") as f: f.write("#!/bin/sh\necho %s/%s\n" % (d, n))
        os.chmod(os.path.join(cwd, d, n), 0o755)
    for d in dirs:
        for n in names:
            # all of them are made; those absent at first are only renamed
            make(d, n)
            if r.random() < 0.5: have.add((d, n))
            else: os.rename(os.path.join(cwd, d, n), os.path.join(cwd, d, "-" + n))
    src = bytearray(b"let h = nil let e = nil let was = std.env(\"PATH\") let c = %s\n" % diff_str(cwd)); want = []; path = []; at = ""
    def find(n):
        for e in path:
            d = e if e.startswith("/") else os.path.normpath(os.path.join(cwd, at, e))
            d = os.path.relpath(d, cwd)
            if (d, n) in have: return d
        return None
    steps = []
    for i in range(r.choice([6, 12, 25])):
        k = r.random()
        if k < 0.25 or not path:
            path = [x if at or r.random() < 0.5 else r.choice([x, "./" + x]) for x in r.sample(dirs, r.randint(1, 4))]
            if at: path = [cwd + "/" + x if r.random() < 0.5 else "../" + x for x in path]
            else: path = [cwd + "/" + x if not x.startswith(".") and r.random() < 0.6 else x for x in path]
            src += b"std.export(\"PATH\", %s ++ \":\" ++ was)\n" % diff_str(":".join(path)); steps.append("path")
        elif k < 0.4:
            d, n = r.choice(dirs), r.choice(names)
            a, b = ("", "-") if (d, n) in have else ("-", "")
            src += b"{ /bin/mv ${c}/%s/%s%s ${c}/%s/%s%s }\n" % (d.encode(), a.encode(), n.encode(), d.encode(), b.encode(), n.encode())
            have ^= {(d, n)}; steps.append("move")
        elif k < 0.5:
            at = r.choice(["", "d0", "d1"])
            src += (b"{ cd ${c}/%s }\n" if r.random() < 0.5 else b"std.cd(c ++ \"/%s\")\n") % at.encode(); steps.append("cd")
        else:
            n = r.choice(names); d = find(n)
            kind = r.randrange(4)
            b = [b"e = { %s }\n", b"h = &{ %s } e = h.join()\n", b"e = { spawn0 %s zero }\n", b"e = { %s ; true }\n"][kind] % n.encode()
            src += b + b"std.println(if e == nil then \"ok\" else e.context.status end)\n"
            want += [b"%s/%s" % (d.encode(), n.encode()), b"ok"] if d else [b"127"]
            steps.append("run%d" % kind)
    src = bytes(src)
    s = cmds.shot(src, cwd=cwd)
    shutil.rmtree(cwd, ignore_errors=True)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    got = s.r.out.split(b"\n")[:-1]; bad = None
    if s.r.status != 0: bad = "status %s: %s" % (s.r.status, s.r.err[:300])
    elif got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        bad = "line %d: expected %r, got %r" % (i, want[i:i + 3], got[i:i + 3])
    res = {"ok": bad is None, "evals": sum(x.startswith("run") for x in steps), "distinct": [repr(steps)], "desc": bad, "stats": {"programs_searched": len(want)},
           "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": s.r.out, "expected.txt": b"\n".join(want)}}
    return confirm(lookup, seed, res)


def diff_str(t): return vals.src(vals.build(t.encode()))


def run(c):
    c.rule = ("random histories of std.export, std.env, std.cd, cd, std.cwd, per-command assignments (any bytes in names and values), spawn0, exec, exec0 and program lookup, against a model; "
              "the started programs record their whole environment, directory and argv; one evaluation per value or started command, distinct by script")
    c.map(case, ["c16/%d/%d" % (c.seed, i) for i in range(c.n(3000, 15000))], extra={"hv": cmds.tool()}, cap=c.cap(100, 1200))
    if c.viol: return
    c.map(lookup, ["c16l/%d/%d" % (c.seed, i) for i in range(c.n(150, 3000))], extra={"hv": cmds.tool()}, cap=c.cap(60, 900))
