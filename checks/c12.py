"""C12: command blocks report every outcome faithfully."""
import os, random, shutil
from engine import common, cmds, diff, vals
from engine.lang import *

SIGS = [1, 2, 3, 6, 9, 14, 15, 10, 12, 13]


class Blk:
    """A block's source with the positions of its commands, and what it must report."""
    def __init__(self, r, tag, alone=True, big=False, huge=False):
        self.r, self.tag = r, tag
        self.pipes = []
        if huge:        # very many failures in one block or in one pipeline
            n, m = r.choice([(40, 1), (90, 1), (25, 2), (2, 33), (1, 60), (140, 1), (70, 2), (1, 70)])
            for i in range(n):
                self.pipes.append([{"id": b"%s-%d-%d" % (tag, i, j), "try": True, "runs": True, "status": c, "text": b"hv s L%s-%d-%d x%d" % (tag, i, j, c)}
                                   for j in range(m) for c in [r.choice([0, 1, 2, 255, r.randint(1, 255)])]])
            return
        for i in range(r.choice([1, 1, 2, 3, 5] if not big else [8, 20])):
            m = r.choice([1, 1, 1, 2, 3, 6] if not big else [1, 2, 12])
            self.pipes.append([self.stage(i, j, m, alone) for j in range(m)])

    def stage(self, i, j, m, alone):
        r = self.r; k = r.random()
        st = {"id": b"%s-%d-%d" % (self.tag, i, j), "try": r.random() < 0.45, "runs": True}
        delay = b"u%d " % r.choice([500, 3000, 10000]) if r.random() < 0.3 else b""
        log = b"hv s L%s " % st["id"] + delay
        if k < 0.4: st.update(text=log + b"x0", status=0)
        elif k < 0.65: c = r.choice([1, 2, 3, 126, 127, 128, 254, 255, r.randint(1, 255)]); st.update(text=log + b"x%d" % c, status=c)
        elif k < 0.75: s = r.choice(SIGS); st.update(text=log + b"k%d" % s, status=255 + s)
        elif k < 0.82: st.update(text=r.choice([b"no-such-program a", b"./no/such a", b"./plain a", b"./dir a", b"'' a"]), status=127, runs=False)
        elif k < 0.88: st.update(text=log + r.choice([b"< no-such-file", b"> no/dir/file", b">> dir", b"2> ./dir/no/x", b"> ok1 < no-such-file"]), status=127, runs=False)
        elif k < 0.92 and m == 1 and alone: st.update(text=r.choice([b"cd no-such-dir", b"alias x y", b"exec ./no/such a", b"spawn0 no-such-program a", b"cd plain"]), status=127, runs=False)
        elif k < 0.94 and m == 1 and alone: c = r.choice([0, 1, 77]); st.update(text=b"spawn0 hv fake s L%s x%d" % (st["id"], c), status=c)
        elif k < 0.955: c = r.choice([0, 1, 40]); st.update(text=log + b"x%d " % c + r.choice([b"$many", b"$many $many", b"'a b' $few", b"$few*"]), status=c)
        elif k < 0.97: c = r.choice([0, 9, 200]); st.update(text=b"A%d=x B= " % j + log + b"x%d" % c, status=c)
        else: st.update(text=log + b"> ok%d" % j, status=0)
        return st

    def emit(self, src, kind):
        """Append the block to src; positions are those of the program words."""
        r = self.r
        src += {"plain": b"{", "capture": b"${", "async": b"&{"}[kind]
        sp = lambda: r.choice([b" ", b" ", b"\n", b"\t", b"\n\t ", b" # c; }\n", b"  \n\n"])
        src += sp()
        for i, p in enumerate(self.pipes):
            if i: src += r.choice([b"", b" "]) + b";" + sp()
            for j, st in enumerate(p):
                if j: src += b" |" + sp()
                t = st["text"]; at = 0
                if t.startswith(b"A"): at = t.index(b"hv s")
                full = bytes(src) + t[:at]
                st["line"] = full.count(b"\n") + 1
                st["col"] = len(full) - (full.rfind(b"\n") + 1)
                src += t
                if st["try"]: src += b" ?"
        if r.random() < 0.2: src += b" ;"
        src += sp() + b"}"

    def outcome(self, file):
        """-> (error context or None, executed ids per pipeline)"""
        errs = []; ran = []
        for p in self.pipes:
            ran.append(sorted(st["id"] for st in p if st["runs"]))
            fails = [st for st in p if st["status"]]
            one = [Err("*", dct(status=st["status"], pos=b"%s (line %d, column %d)" % (file, st["line"], st["col"]))) for st in fails]
            if one: errs.append(one[0] if len(one) == 1 else Err("*", Arr(one)))
            if any(not st["try"] for st in fails): break
        res = None if not errs else errs[0] if len(errs) == 1 else Err("*", Arr(errs))
        return res, ran


def dct(**kw):
    d = Dct()
    for k, v in kw.items(): d.set(k.encode(), v)
    return d


def strip(v):
    """Drop the descriptions of errors, which are free text."""
    if isinstance(v, Err): return Err("*", strip(v.ctx))
    if isinstance(v, Arr): return Arr([strip(x) for x in v.a])
    if isinstance(v, Dct):
        d = Dct()
        for k, x in v.d.values(): d.set(k, strip(x))
        return d
    return v


def case(seed, noise=None):
    r = random.Random(seed)
    cwd = common.scratch()
    os.mkdir(os.path.join(cwd, "dir"))
    with open(os.path.join(cwd, "plain"), "w") as f: f.write("not executable")
    src = bytearray(diff.HEAD)
    src += b"let few = [1, 2]\nlet many = []\nfor i in std.range(0, %d, 1) do std.push(many, i) end\n" % r.choice([10, 101, 300, 3000])
    blocks = []
    for b in range(r.randint(2, 6)):
        kind = r.choice(["plain", "plain", "plain", "capture", "async"])
        blk = Blk(r, b"b%d" % b, alone=kind == "plain", big=r.random() < 0.03, huge=r.random() < 0.02)
        if noise: src += noise(r)
        src += b"let r%d = " % b
        blk.emit(src, kind)
        if kind == "async": src += b"\nlet r%d_ = r%d.join()\nT(\"%d\", r%d_)\n" % (b, b, b, b)
        else: src += b"\nT(\"%d\", r%d)\n" % (b, b)
        blocks.append((kind, blk))
    src = bytes(src)
    s = cmds.shot(src, cwd=cwd)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    file = os.path.join(common.W["tmp"], "script", "t.hsh").encode()
    bad = None
    if s.r.status != 0: bad = "status %s: %s" % (s.r.status, s.r.err[:300])
    lines = norm_output(s.r.out).split(b"\n")
    log = [x.text() for x in s.recs if x.kind == "L"]
    at = 0; sig = []
    for i, (kind, blk) in enumerate(blocks):
        if bad: break
        want, ran = blk.outcome(file)
        if kind == "capture":
            caps = dct(stdout=b"", stderr=b"")
            if want is None: want = caps
            else: caps.set(b"error", want.ctx); want = Err("*", caps)
        try: got = strip(vals.parse(lines[i].partition(b" ")[2]))
        except (ValueError, IndexError) as e: bad = "block %d: unreadable outcome %s" % (i, e); break
        if vals.ident(got) != vals.ident(want): bad = "block %d (%s): expected outcome %s, reported %s" % (i, kind, pretty(want), pretty(got)); break
        for p in ran:
            g = sorted(log[at:at + len(p)]); at += len(p)
            if g != p: bad = "block %d: expected the commands %r to run, the log shows %r" % (i, p, g); break
        sig.append(pretty(want)[:2000] + repr(ran))
    if not bad and at != len(log): bad = "commands ran that should not: %r" % log[at:]
    if not bad and s.r.err: bad = "unexpected stderr %r" % s.r.err[:300]
    res = {"ok": bad is None, "evals": len(blocks), "distinct": sig, "desc": bad,
           "stats": {"blocks": len(blocks), "commands_run": len(log)},
           "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": s.r.out, "records.txt": repr(log)}}
    if not bad: shutil.rmtree(cwd, ignore_errors=True)
    return confirm(lambda s: case(s, noise), seed, res)


_again = [False]


def confirm(f, seed, res):
    """Reported only if it happens again in one of three further runs."""
    if res["ok"] or _again[0]: return res
    _again[0] = True
    try:
        if any(not f(seed)["ok"] for _ in range(3)): return res
    finally: _again[0] = False
    return {"ok": True, "evals": res["evals"], "stats": {"unreproduced": 1}}


def pretty(v):
    import re
    return re.sub(r"s([0-9a-f]{6,})", lambda m: repr(bytes.fromhex(m.group(1)))[2:-1] if len(m.group(1)) % 2 == 0 else m.group(0), vals.ident(v))[:1500]


def loops(seed):
    """One block evaluated many times with changing outcomes; `?` of the enclosing function on its value."""
    r = random.Random(seed)
    n = r.choice([5, 20])
    codes = [r.choice([0, 0, 1, 7, 255]) for _ in range(n * 2)]
    src = diff.HEAD + b"let codes = [%s]\n" % b", ".join(b"[%d, %d]" % (codes[2 * i], codes[2 * i + 1]) for i in range(n))
    q = r.random() < 0.5
    src += b"function go (a, b)\n { hv s Lx$a x$a %s; hv s Ly$b x$b }?\n \"fine\"\nend\nfor c in std.iter(codes) do\nlet e = go(c[0], c[1])\nlet ctx = if std.type(e) == \"error\" then e.context else e end\n" % (b"?" if q else b"")
    src += b"if std.type(ctx) == \"dict\" then T(\"s\", ctx.status) elseif std.type(ctx) == \"array\" then T(\"a\", [ctx[0].context.status, ctx[1].context.status, std.len(ctx)]) else T(\"v\", ctx) end\nend\n"
    exp = b""; log = []
    for i in range(n):
        a, b = codes[2 * i:2 * i + 2]
        log.append(b"x%d" % a)
        f = []
        if a: f.append(a)
        if not a or q:
            log.append(b"y%d" % b)
            if b: f.append(b)
        exp += b"v s" + b"fine".hex().encode() + b"\n" if not f else b"s i%d\n" % f[0] if len(f) == 1 else b"a [i%d,i%d,i2,]\n" % tuple(f)
    s = cmds.shot(src)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    got = [x.text() for x in s.recs]
    bad = None
    if s.r.out != exp: bad = "repeated block: " + diff.first_diff(exp, s.r.out)
    elif got != log: bad = "repeated block: expected the commands %r, got %r" % (log[:30], got[:30])
    res = {"ok": bad is None, "evals": n, "distinct": [repr(codes)], "desc": bad, "stats": {"repeated_blocks": n},
           "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": s.r.out}}
    return confirm(loops, seed, res)


def starved(seed):
    """A block that runs out of descriptors half way still reports the commands that failed before."""
    r = random.Random(seed)
    cwd = common.scratch()
    src = bytearray(diff.HEAD)
    runs = []
    for b in range(r.randint(3, 8)):
        kind = r.choice([b"{ %s }", b"{ %s }", b"${ %s }", b"(function () let h = &{ %s } h.join() end)()"])
        cs = [(b"f%d-%d" % (b, i), r.choice([0, 1, 2, 77, 255])) for i in range(r.randint(1, 4))]
        w = r.choice([2, 4, 7, 12, 20, 30])
        text = b" ; ".join(b"hv s L%s x%d ?" % c for c in cs) + b" ; " + b" | ".join([b"hv s Le%d" % b] + [b"hv s T0"] * w) + b" > /dev/null ; hv s Lz%d" % b
        src += b"let r%d = %s\nif std.type(r%d) == \"error\" and std.type(r%d.context) == \"dict\" and std.contains(r%d.context, \"stdout\") then r%d = std.error(\"\", r%d.context.error) elseif std.type(r%d) == \"dict\" then r%d = nil end\nT(\"%d\", r%d)\n" % (b, kind % text, b, b, b, b, b, b, b, b, b)
        runs.append(cs)
    src = bytes(src)
    n = r.choice([7, 8, 9, 10, 11, 12, 14, 16, 20, 24])
    from . import c15
    s = c15.shot_limited(src, cwd, n)
    shutil.rmtree(cwd, ignore_errors=True)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    log = {x.text() for x in s.recs if x.kind == "L"}
    bad = None; short = 0; sig = []
    lines = norm_output(s.r.out).split(b"\n")
    if s.r.status != 0: bad = "status %s: %s" % (s.r.status, s.r.err[:300])
    def stats(v):
        """The statuses of an error tree, in order."""
        if v is None: return []
        if isinstance(v, Err): return stats(v.ctx)
        if isinstance(v, Arr): return [x for e in v.a for x in stats(e)]
        return [v.get(b"status")[1]]
    for b, cs in enumerate(runs):
        if bad: break
        try: got = stats(vals.parse(lines[b].partition(b" ")[2]))
        except (ValueError, IndexError, AttributeError) as e: bad = "block %d: unreadable outcome %r %r" % (b, e, lines[b][:300]); break
        want = [st for i, st in cs if i in log and st]
        if b"z%d" % b in log:
            if got != want: bad = "block %d ran to its end with the failures %r, reported %r" % (b, want, got)
        else:
            short += 1
            if not any(st == 127 for st in got): bad = "block %d ended early, reported %r" % (b, got)
            elif got[:len(want)] != want: bad = "block %d: the commands failed with %r before the shell ran out of descriptors, reported %r" % (b, want, got)
        sig.append("%d:%r" % (n, got))
    res = {"ok": bad is None, "evals": len(runs), "distinct": sig, "desc": bad and "with %d descriptors: %s" % (n, bad), "stats": {"starved_blocks": len(runs), "starved_ended_early": short},
           "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": s.r.out, "records.txt": repr(sorted(log))}}
    return confirm(starved, seed, res)


def run(c):
    c.rule = ("random blocks of commands and pipelines with injected exit statuses, signals, missing programs, failing redirections and `?` marks, as plain, capturing and async blocks in random layouts; "
              "the recorded log of started commands and the reported error tree are compared with the model; one evaluation per block, distinct by outcome and executed set")
    extra = {"hv": cmds.tool()}
    c.map(case, ["c12/%d/%d" % (c.seed, i) for i in range(c.n(4000, 30000))], extra=extra, cap=c.cap(150, 1500))
    if c.viol: return
    c.map(starved, ["c12s/%d/%d" % (c.seed, i) for i in range(c.n(300, 4000))], extra=extra, cap=c.cap(80, 900))
    if c.viol: return
    c.map(loops, ["c12l/%d/%d" % (c.seed, i) for i in range(c.n(80, 800))], extra=extra, cap=c.cap(60, 600))
