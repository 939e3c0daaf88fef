"""C17: modules load once, relative to the importer."""
import os, random, shutil
from engine import common, cmds, diff, printer, vals
from engine.lang import *
from .c12 import confirm

DIRS = ["", "lib", "lib/sub", "other dir", "lib/sub/deep", "caf\u00e9"]


class Mod:
    """A module: its source is the list of actions in hush, its behaviour the same list interpreted."""
    def __init__(self, i, path, kind):
        self.i, self.path, self.kind = i, path, kind
        self.acts = []; self.count = 0; self.list = []; self.lazy = None


class Graph:
    def __init__(self, r, root):
        self.r, self.root, self.n = r, root, 0
        self.out = []; self.cached = set(); self.loading = []
        self.mods = []
        k = r.choice([1, 2, 3, 5, 8, 12])
        for i in range(k + 1):
            d = r.choice(DIRS); ext = r.choice([".hsh", "", ".x y", ".hsh"])
            m = Mod(i, os.path.join(d, "m%d%s" % (i, ext)), "dict" if i == 0 or r.random() < 0.8 else r.choice(["value", "nil", "fun", "array", "errval", "other", "static", "panic", "missing"]))
            self.mods.append(m)
        self.bad_used = set()
        for m in self.mods: self.fill(m)

    def name(self): self.n += 1; return b"v%d" % self.n

    def spell(self, m, t):
        """The target as a path relative to the module's file, or absolute."""
        r = self.r
        d = os.path.dirname(m.path); rel = os.path.relpath(t.path, d or ".")
        k = r.random()
        if k < 0.15: return os.path.join(self.root, t.path)
        if k < 0.3: return "./" + rel
        if k < 0.4: return os.path.join("..", os.path.basename(os.path.normpath(os.path.join(self.root, d))), rel)
        if k < 0.5:
            # through the link to the root that lies in every directory
            return os.path.join("rootlink", t.path)
        if k < 0.58:
            # `..` behind a link: the parent of where it leads, not of the name
            return os.path.join("deeplink/../../..", t.path)
        return rel

    def fill(self, m):
        r = self.r
        m.src = bytearray(diff.HEAD)
        pads = r.choice([0, 1, 4, 9])
        m.pad = [r.randrange(1000) for _ in range(pads)]
        for j, v in enumerate(m.pad): m.src += b"let p%d = %d\n" % (j, v)
        self.trace(m, b"load", b"%d" % m.i)
        if m.kind == "static":
            m.src = bytearray(b"std.println(\"never\")\n" + r.choice([b"let = 1\n", b"undeclared_name()\n", b"return 1\n", b"if true then\n", b"let a = 1 let b = \"x\nc = 2\n", b"{ cmd [ }\n"]))
            return
        if m.kind == "panic":
            m.src += r.choice([b"std.panic(\"boom\")\n", b"let a = 1 + \"x\"\n", b"let f = function (n) if n == 0 then [1][5] else f(n - 1) end end\nf(3)\n", b"let q = std.import(\"no-such-module\")\n"]) + b"std.println(\"never\")\n"
            m.acts.append(("panic",)); return
        m.src += b"let count = 0\nlet list = []\n"
        have = []          # (variable, module)
        for _ in range(r.choice([1, 3, 6]) if m.i else r.choice([4, 8, 12])):
            k = r.random()
            t = r.choice(self.mods[1:])
            if t.kind == "panic":
                if t.i in self.bad_used: continue
                self.bad_used.add(t.i)
            if k < 0.5:
                p = self.spell(m, t); v = self.name(); ps = printer.str_token(p.encode())
                form = r.randrange(4)
                if form == 0: m.src += b"let %s = std.catch(function () std.import(%s) end)\n" % (v, ps)
                elif form == 1: m.src += b"let %s = std.catch(function () let imp = std.import let w = imp(%s) w end)\n" % (v, ps)
                elif form == 2: m.src += b"let g%s = function (path) if path != nil then return std.import(path) end end\nlet %s = std.catch(function () g%s(%s) end)\n" % (v, v, v, ps)
                else: m.src += b"let %s = std.catch(function () let z = nil for q in std.range(0, 3, 1) do z = std.import(%s) end z end)\n" % (v, ps)
                m.acts.append(("import", t))
                m.src += (b"T(\"got\", if std.type(%s) == \"dict\" then %s.name elseif std.type(%s) == \"error\" then (if %s.description == \"modval\" then (function () std.push(%s.context, %%d) return [\"E\", std.len(%s.context)] end)() else \"error\" end) "
                          b"elseif std.type(%s) == \"array\" then (function () std.push(%s, %%d) return [%s[0], std.len(%s)] end)() elseif std.type(%s) == \"function\" then %s() else %s end)\n") % ((v,) * 13) % (m.i, m.i)
                m.acts.append(("got", t))
                if t.kind == "dict": have.append((v, t, sum(x[0] == "import" for x in m.acts) - 1))
            elif have:
                v, t, j = r.choice(have)
                form = r.randrange(6)
                guard = b"if std.type(%s) == \"dict\" then %%s end\n" % v
                if form == 0: m.src += guard % (b"T(\"inc\", %s.inc())" % v); m.acts.append(("inc", t, j))
                elif form == 1: m.src += guard % (b"T(\"get\", %s.get())" % v); m.acts.append(("get", t, j))
                elif form == 2: m.src += guard % (b"std.push(%s.list, %d) T(\"len\", %s.len())" % (v, m.i, v)); m.acts.append(("push", t, j))
                elif form == 3: m.src += guard % (b"T(\"lazy\", std.type(std.catch(%s.lazy)))" % v); m.acts.append(("lazy", t, j))
                elif form == 4: m.src += guard % (b"T(\"boom\", std.type(std.catch(%s.boom))) T(\"get\", %s.get())" % (v, v)); m.acts.append(("boom", t, j))
                else: m.src += guard % (b"T(\"me\", %s.me())" % v); m.acts.append(("me", t, j))
            elif k < 0.75:
                m.src += b"std.cd(%s)\n" % printer.str_token(r.choice([b"/", self.root.encode(), os.path.join(self.root, "lib").encode()]))
            m.src += b"count = count + 1\n"; m.acts.append(("own",))
        m.src += b"T(\"pads\", [%s])\nT(\"count\", count)\n" % b", ".join(b"p%d" % j for j in range(pads)); m.acts += [("pads",), ("count",)]
        t = r.choice(self.mods[1:])
        if t.kind in ("panic",): t = m
        m.lazy = t
        if m.kind == "dict":
            m.src += b"@[ name: \"m%d\", list: list, inc: function () count = count + 1 count end, get: function () count end, len: function () std.len(list) end, lazy: function () std.import(%s) end, boom: function () count = count + 10 std.panic(count) end, me: function () [self.name, %s] end ]\n" % (
                m.i, printer.str_token(self.spell(m, t).encode()), b"p0" if pads else b"nil")
        elif m.kind == "value": m.src += b"%d + 1000\n" % m.i
        elif m.kind == "array": m.src += b"std.push(list, %d)\nlist\n" % m.i
        elif m.kind == "errval": m.src += b"std.error(\"modval\", list)\n"
        elif m.kind == "other": m.src += [b"\"text\"\n", b"'c'\n", b"2.5\n", b"true\n", b"false\n"][m.i % 5]
        elif m.kind == "fun": m.src += b"function () count = count + 1 return [%d, count] end\n" % m.i
        else: m.src += b"let last = 1\n"

    def trace(self, m, lab, val):
        m.src += b"T(\"%s\", %s)\n" % (lab, val); m.acts.append(("trace", lab, val))

    # ---- the same, interpreted
    def put(self, lab, v): self.out.append((lab, v))

    def imp(self, t):
        """-> "ok" or "error" """
        if t.kind in ("missing", "static"): return "error"
        if t in self.loading: return "error"
        if t.i not in self.cached:
            if self.exec(t) == "panic": return "error"
            self.cached.add(t.i)
        return "ok"

    def exec(self, m):
        self.loading.append(m)
        m.count = 0; m.list = []; st = []
        for a in m.acts:
            k = a[0]
            if k == "trace": self.put(a[1].decode(), int(a[2]))
            elif k == "panic": self.loading.pop(); return "panic"
            elif k == "import": cur = self.imp(a[1]); st.append(cur)
            elif k == "got":
                t = a[1]
                if cur == "error": self.put("got", b"error")
                elif t.kind == "dict": self.put("got", b"m%d" % t.i)
                elif t.kind == "value": self.put("got", t.i + 1000)
                elif t.kind == "fun": t.count += 1; self.put("got", Arr([t.i, t.count]))
                elif t.kind == "array": t.list.append(0); self.put("got", Arr([t.i, len(t.list) + 1]))
                elif t.kind == "errval": t.list.append(0); self.put("got", Arr([b"E", len(t.list)]))
                elif t.kind == "other": self.put("got", [b"text", Byte(99), 2.5, True, False][t.i % 5])
                else: self.put("got", None)
            elif k == "own": m.count += 1
            elif k == "pads": self.put("pads", Arr(list(m.pad)))
            elif k == "count": self.put("count", m.count)
            else:
                t, j = a[1], a[2]
                if st[j] == "error": continue
                if k == "inc": t.count += 1; self.put("inc", t.count)
                elif k == "get": self.put("get", t.count)
                elif k == "push": t.list.append(m.i); self.put("len", len(t.list))
                elif k == "boom": t.count += 10; self.put("boom", b"error"); self.put("get", t.count)
                elif k == "me": self.put("me", Arr([b"m%d" % t.i, t.pad[0] if t.pad else None]))
                elif k == "lazy":
                    z = t.lazy; o = self.imp(z)
                    self.put("lazy", b"error" if o == "error" else {"dict": b"dict", "value": b"int", "fun": b"function", "nil": b"nil", "array": b"array", "errval": b"error", "other": [b"string", b"char", b"float", b"bool", b"bool"][z.i % 5]}[z.kind])
        self.loading.pop()
        return "ok"


def case(seed):
    r = random.Random(seed)
    root = os.path.realpath(common.scratch())
    for d in DIRS:
        os.makedirs(os.path.join(root, d), exist_ok=True)
        os.symlink(root, os.path.join(root, d, "rootlink"))
        os.symlink(os.path.join(root, "lib/sub/deep"), os.path.join(root, d, "deeplink"))
    g = Graph(r, root)
    for m in g.mods:
        if m.kind == "missing": continue
        with open(os.path.join(root, m.path), "wb") as f: f.write(bytes(m.src))
    g.exec(g.mods[0])
    main = g.mods[0]
    form = r.randrange(4)
    # the main program by absolute path, by relative path from several directories
    cwd = [root, "/", os.path.dirname(os.path.join(root, main.path)), root][form]
    path = os.path.join(root, main.path) if r.random() < 0.4 else None if form == 3 else os.path.relpath(os.path.join(root, main.path), cwd)
    # the names of missing modules exist elsewhere, where no importer's path leads
    decoy = b"std.println(\"DECOY\")\n@[ name: \"decoy\" ]\n"
    if form == 3:
        cwd = os.path.realpath(common.scratch())
        for d in DIRS: os.makedirs(os.path.join(cwd, d), exist_ok=True)
        for m in g.mods:
            for p in (m.path, os.path.basename(m.path), os.path.join("lib", os.path.basename(m.path))):
                with open(os.path.join(cwd, p), "wb") as f: f.write(decoy)
    res = common.run([common.W["hush"], path or os.path.relpath(os.path.join(root, main.path), cwd)], env=dict(common.BASE_ENV, HOME=cwd, PWD=cwd, OLDPWD=cwd), cwd=cwd)
    if form == 3: shutil.rmtree(cwd, ignore_errors=True)
    if res.timeout and not res.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = None
    out = norm_output(res.out).split(b"\n")
    if res.status != 0: bad = "status %s: %s" % (res.status, res.err[-500:])
    for i, ((lab, want), line) in enumerate(zip(g.out, out)):
        a, _, v = line.partition(b" ")
        w = lab.encode() + b" " + vals_ident(want)
        if bad is None or res.status != 0:
            if line != w: bad = (bad + "; " if bad else "") + "record %d: expected %r, got %r" % (i, w[:200], line[:200]); break
    if not bad and len(out) != len(g.out) + 1: bad = "%d records, expected %d: %r" % (len(out) - 1, len(g.out), out[len(g.out):][:3])
    loads = sum(1 for l, _ in g.out if l == "load")
    res = {"ok": bad is None, "evals": len(g.out), "distinct": [repr([(l, vals_ident(v)) for l, v in g.out])], "desc": bad,
           "stats": {"modules_loaded": loads, "imports": sum(a[0] == "import" for m in g.mods for a in m.acts), "circular_or_failed": sum(1 for l, v in g.out if v == b"error")},
           "files": {"stderr.txt": res.err, "observed.txt": res.out, "expected.txt": b"\n".join(l.encode() + b" " + vals_ident(v) for l, v in g.out),
                     **{"mod-%d-%s" % (m.i, m.path.replace("/", "_")): bytes(m.src) for m in g.mods if m.kind != "missing"}, "how.txt": "cwd %s path %s" % (cwd, path)}}
    shutil.rmtree(root, ignore_errors=True)
    return confirm(case, seed, res)


def vals_ident(v):
    x = vals.ident(v)
    return x if isinstance(x, bytes) else x.encode()


def stdin(seed):
    """A script from stdin imports relative to the directory the shell was started in."""
    r = random.Random(seed)
    root = os.path.realpath(common.scratch())
    os.makedirs(os.path.join(root, "d"))
    with open(os.path.join(root, "d", "m.hsh"), "wb") as f: f.write(b"let n = std.import(\"n.hsh\")\nstd.println(\"m\") let w = [n] w")
    with open(os.path.join(root, "d", "n.hsh"), "wb") as f: f.write(b"std.println(\"n\") 5")
    src = b"%sstd.println(std.import(\"d/m.hsh\"))\nstd.println(std.import(\"d/n.hsh\"))\n" % r.choice([b"", b"std.cd(\"/\")\n"])
    x = common.run([common.W["hush"]], stdin=src, env=common.BASE_ENV, cwd=root)
    bad = None if x.out == b"n\nm\n[ 5 ]\n5\n" and x.status == 0 else "script from stdin: printed %r, %r" % (x.out, x.err[:300])
    shutil.rmtree(root, ignore_errors=True)
    return {"ok": bad is None, "evals": 3, "distinct": [src], "desc": bad, "files": {"program.hsh": src}}


def chain(seed):
    """Many modules: each imports some of the following ones (a chain of them first, or late, or none), all load once."""
    r = random.Random(seed)
    root = os.path.realpath(common.scratch())
    n = r.choice([10, 34, 70, 140, 300]); form = r.randrange(3)
    if form == 0: n = min(n, 140)
    mods = {}; order = []; seen = set()
    def path(i): return "d%d/m%d" % (i % 3, i)
    for d in range(3): os.mkdir(os.path.join(root, "d%d" % d))
    for i in range(n):
        deps = {0: [i + 1] if i + 1 < n else [], 1: list(range(1, n)) if i == 0 else [], 2: [x for x in (2 * i + 1, 2 * i + 2) if x < n]}[form]
        if i and r.random() < 0.3: deps = deps + [r.randrange(1, n)]     # possibly a circle, possibly loaded
        mods[i] = deps
    def load(i):
        if i in seen: return "loaded" if i in done else None
        seen.add(i); order.append(b"load %d" % i)
        for t in mods[i]:
            if load(t) is None: order.append(b"circle %d" % t)
            else: order.append(b"got %d" % t)
        done.add(i)
        return "loaded"
    done = set()
    load(0)
    order.append(b"end")
    for i, deps in mods.items():
        src = b"std.println(\"load %d\")\n" % i
        for k, t in enumerate(deps):
            src += b"let v%d = std.catch(function () std.import(\"../%s\") end)\nif std.type(v%d) == \"error\" then std.println(\"circle %d\") else std.println(\"got \" ++ std.to_string(v%d)) end\n" % (k, path(t).encode(), k, t, k)
        with open(os.path.join(root, path(i)), "wb") as f: f.write(src + (b"%d\n" % i if i else b"std.println(\"end\")\n"))
    x = common.run([common.W["hush"], os.path.join(root, path(0))], env=common.BASE_ENV, cwd="/")
    if x.timeout and not x.stuck: return {"ok": True, "inconclusive": "watchdog"}
    got = x.out.splitlines(); bad = None
    if got != order or x.status != 0:
        k = next((k for k, (p, q) in enumerate(zip(got, order)) if p != q), min(len(got), len(order)))
        bad = "%d modules: status %s, line %d is %r instead of %r: %r" % (n, x.status, k, got[k:k + 1], order[k:k + 1], x.err[-300:])
    files = {"main.hsh": open(os.path.join(root, path(0)), "rb").read(), "imports.txt": repr(mods)} if bad else {}
    shutil.rmtree(root, ignore_errors=True)
    return {"ok": bad is None, "evals": len(order), "distinct": [repr(mods)], "desc": bad, "stats": {"modules_loaded": len(seen), "longest_chains" if form == 0 else "crowds": 1}, "files": files}


def run(c):
    c.rule = ("random graphs of modules in a directory tree, imported at top level, in functions, loops and lazily, by relative, absolute and linked paths, circularly, missing, with static errors or panics, and with changes of directory; "
              "the trace of every module is compared with a model of the graph; one evaluation per trace record, distinct by trace")
    c.map(case, ["c17/%d/%d" % (c.seed, i) for i in range(c.n(3000, 30000))], cap=c.cap(100, 1200), chunk=4)
    if c.viol: return
    c.map(stdin, ["c17s/%d/%d" % (c.seed, i) for i in range(8)])
    if c.viol: return
    c.map(chain, ["c17c/%d/%d" % (c.seed, i) for i in range(c.n(60, 800))], cap=c.cap(60, 600), chunk=4)
