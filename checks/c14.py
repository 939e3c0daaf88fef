"""C14: asynchronous blocks run once and join to their outcome."""
import os, random, shutil
from engine import common, cmds, diff, vals
from engine.lang import *
from .c12 import Blk, confirm, strip, pretty, SIGS


class ABlk(Blk):
    """Every started command records its beginning and its end."""
    def stage(self, i, j, m, alone):
        r = self.r; k = r.random()
        st = {"id": b"%s-%d-%d" % (self.tag, i, j), "try": r.random() < 0.5, "runs": True}
        extra = self.extra.pop() if getattr(self, "extra", None) else b""
        d = b"u%d " % r.choice([0, 100, 1000, 5000, 20000, 60000]) if r.random() < 0.7 else b""
        log = b"hv s L%s %s%sL%s. " % (st["id"], extra, d, st["id"])
        if k < 0.55 or extra: st.update(text=log + b"x0", status=0)
        elif k < 0.78: c = r.choice([1, 2, 127, 255, r.randint(1, 255)]); st.update(text=log + b"x%d" % c, status=c)
        elif k < 0.88: s = r.choice(SIGS); st.update(text=log + b"k%d" % s, status=255 + s)
        elif k < 0.95: st.update(text=b"no-such-program a", status=127, runs=False)
        else: st.update(text=log + b"< no-such-file", status=127, runs=False)
        return st


class One(ABlk):
    """A single command that succeeds, with the given actions in it."""
    def __init__(self, r, tag, extra):
        self.r, self.tag, self.extra = r, tag, [extra]
        self.pipes = [[self.stage(0, 0, 1, False)]]


def case(seed):
    r = random.Random(seed)
    cwd = common.scratch()
    src = bytearray(diff.HEAD)
    n = r.choice([1, 2, 3, 4, 6, 10]) if r.random() < 0.9 else r.choice([30, 60])
    file = os.path.join(common.W["tmp"], "script", "t.hsh").encode()
    exp = []                     # (label, value or "panic")
    blocks = []                  # block, joined?, mark index
    live = []; marks = {}; sig = []; lines = []
    src += b"let handles = [] let keep = @[] let var = 0 let list = []\nfunction same (f) f() end\n"
    started = 0; steps = 0; gates = 0
    varv = 0; panics = {}
    while started < n or live:
        steps += 1
        k = r.random()
        if started < n and (not live or k < 0.4):
            i = started; started += 1
            tag = b"a%d" % i
            form = r.random()
            if form < 0.12:      # released only by what the script does next
                b = One(r, tag, b"Gg%d " % i); gates += 1
                src += b"let h%d = " % i; b.emit(src, "async"); src += b"\n"
                src += r.choice([b"{ hv s Mg%d }\n", b"let cap%d = ${ hv s Mg%%d }\n" % i, b"let go%d = &{ hv s Mg%%d } go%d.join()\n" % (i, i)]) % i
            elif form < 0.2 and started < n:     # two blocks that need each other
                b = One(r, tag, b"Mp%d Gq%d " % (i, i)); gates += 1
                src += b"let h%d = " % i; b.emit(src, "async"); src += b"\n"
                blocks.append(b); live.append(i)
                j = started; started += 1
                b = One(r, b"a%d" % j, b"Mq%d Gp%d " % (i, i))
                src += b"let h%d = " % j; b.emit(src, "async"); src += b"\n"
                i = j
            elif form < 0.32:    # variables are those at the start
                b = One(r, tag, b"u%d Lv$var Ll$list: " % r.choice([0, 2000, 30000]))
                src += b"list = [%d, %d]\nvar = %d\nlet h%d = " % (i, i + 1, varv + 1, i); varv += 1
                b.emit(src, "async"); src += b"\n"
                src += r.choice([b"var = \"later\"\nstd.push(list, 99)\n", b"var = nil list[0] = 77\n", b"std.pop(list) { hv s x0 } var = var + 50\n"])
                b.more = [b"v%d" % varv, b"l%d:" % i, b"l%d:" % (i + 1)]
            elif form < 0.4:     # started by a function that returns
                b = ABlk(r, tag, alone=False)
                src += b"let mk%d = function (x)\nlet y = x\n" % i; b.emit(src, "async"); src += b"\nend\nlet h%d = mk%d(1)\n" % (i, i)
            elif form < 0.45:    # ends in a panic, which belongs to the join
                b = One(r, tag, b""); b.pipes[0][0]["text"] = b"hv s Lno > none*.zz"; b.pipes[0][0]["runs"] = False; panics[i] = True
                src += b"let h%d = " % i; b.emit(src, "async"); src += b"\n"
            else:
                b = ABlk(r, tag, alone=False)
                src += b"let h%d = " % i; b.emit(src, "async"); src += b"\n"
            blocks.append(b); live.append(i)
            src += b"T(\"started\", std.type(h%d))\n" % i; exp.append(("started", b"dict"))
        elif k < 0.75 and live:
            i = live.pop(r.choice([0, -1, r.randrange(len(live))]))
            b = blocks[i]
            form = r.randrange(5)
            j = [b"h%d.join()", b"h%d[\"join\"]()", b"same(h%d.join)", b"std.bind(nil, h%d.join)()", b"(function (x) x.join() end)(h%d)"][form] % i
            src += b"let r%d = std.catch(function () %s end)\n" % (i, j)
            src += b"{ hv s LJ%d }\n" % i
            want = b.outcome(file)[0]
            src += b"T(\"j%d\", if std.type(r%d) == \"error\" and r%d.context == \"panic\" then \"panic\" else r%d end)\n" % (i, i, i, i)
            exp.append(("j%d" % i, b"panic" if i in panics else want))
            if r.random() < 0.3:
                src += b"T(\"again%d\", std.type(std.catch(h%d.join)))\nT(\"why%d\", std.catch(h%d.join).context == \"panic\")\n" % (i, i, i, i)
                exp += [("again%d" % i, b"error"), ("why%d" % i, True)]
        elif k < 0.85:
            src += r.choice([b"{ hv s u500 }\n", b"let _%d = ${ hv s Ox }\n" % steps, b"std.sleep(2)\n", b"{ hv s Oa | hv s T0 > /dev/null }\n"])
        else:
            w = b"{say%d}" % steps
            src += b"std.println(\"%s\")\n" % w; exp.append(("println", w))
        if steps > 400: break
    # blocks nobody joins, whose handle is dropped
    drop = r.choice([0, 0, 1, 3])
    for q in range(drop):
        src += b"let dr%d = (function () let h = &{ hv s u%d Ldrop%d ; hv s Ldrap%d Mdone%d } nil end)()\n" % (q, r.choice([0, 3000, 20000]), q, q, q)
    if drop: src += b"let trash = [] for i in std.range(0, 300, 1) do std.push(trash, [trash]) end trash = nil\n"
    for q in range(drop): src += b"{ hv s Gdone%d }\n" % q
    src += b"T(\"end\", 1)\n"; exp.append(("end", 1))
    src = bytes(src)
    s = cmds.shot(src, cwd=cwd, timeout=150)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = None
    if s.r.stuck: bad = "deadlock: all processes asleep"
    elif s.r.status != 0: bad = "status %s: %s" % (s.r.status, s.r.err[:300])
    out = norm_output(s.r.out).split(b"\n")
    for x in s.recs:
        if x.kind == "N" and not bad: bad = "a block waited in vain for %s: the script or another block did not go on meanwhile" % x.text().decode()
    for (lab, want), line in zip(exp, out):
        if bad: break
        if lab == "println":
            if line != want: bad = "expected %r, printed %r" % (want, line)
            continue
        a, _, v = line.partition(b" ")
        if a.decode("utf-8", "replace") != lab: bad = "expected record %s, got %r" % (lab, line[:200]); break
        try: got = strip(vals.parse(v))
        except (ValueError, IndexError): bad = "unreadable %r" % line[:200]; break
        if vals.ident(got) != vals.ident(want): bad = "%s: expected %s, got %s" % (lab, pretty(want), pretty(got))
    if not bad and len(out) != len(exp) + 1: bad = "%d records, expected %d" % (len(out) - 1, len(exp))
    log = [x.text() for x in s.recs if x.kind == "L"]
    if not bad:
        at = {t: i for i, t in enumerate(log)}
        want = []
        for i, b in enumerate(blocks):
            ran = b.outcome(file)[1] if i not in panics else []
            prev = -1
            for p in ran:
                ids = [t for x in p for t in (x, x + b".")]
                want += ids
                miss = [t for t in ids if t not in at]
                if miss: bad = "command %r of block %d never ran or finished" % (miss[0], i); break
                if prev > min(at[t] for t in ids if not t.endswith(b".")) if ids else False: bad = "block %d: a command started before its predecessor ended" % i; break
                if ids: prev = max(at[t] for t in ids)
            if bad: break
            want += getattr(b, "more", [])
            j = b"J%d" % i; want.append(j)
            if prev >= 0 and at.get(j, -1) < prev: bad = "join of block %d returned before its commands had ended" % i; break
        for q in range(drop): want += [b"drop%d" % q, b"drap%d" % q]
        if not bad and sorted(want) != sorted(log):
            extra = list(log)
            for t in want:
                if t in extra: extra.remove(t)
            lost = list(want)
            for t in log:
                if t in lost: lost.remove(t)
            bad = "commands run too often: %r; not at all: %r" % (extra[:10], lost[:10])
    # distinct schedules: the order in which the records of different blocks came
    sig = [b",".join(t.split(b"-")[0] for t in log)] if len(blocks) > 1 else []
    res = {"ok": bad is None, "evals": len(blocks) + drop, "distinct": sig, "desc": bad,
           "stats": {"blocks": len(blocks), "dropped_blocks": drop, "records": len(log), "rendezvous": gates,
                     "overlapping": int(any(log[i].split(b"-")[0] != log[i + 1].split(b"-")[0] for i in range(len(log) - 1)))},
           "sample": {"schedule": [t.decode() for t in log[:40]]},
           "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": s.r.out, "records.txt": repr(log)}}
    shutil.rmtree(cwd, ignore_errors=True)
    return confirm(case, seed, res)


def storm(seed):
    """Many concurrent blocks that write to the shell's stdout; every line arrives once, every outcome is
    the block's own."""
    r = random.Random(seed)
    n = r.choice([40, 100, 200])
    codes = [r.choice([0, 0, 3, 200]) for _ in range(n)]
    order = list(range(n)); r.shuffle(order)
    src = diff.HEAD + b"let codes = [%s]\nlet hs = []\nlet i = 0\nfor c in std.iter(codes) do\n" % b", ".join(b"%d" % c for c in codes)
    src += b"std.push(hs, &{ hv s Ls$i Oline-$i\\n ; hv s Lt$i u%d Qerr-$i\\n x$c })\ni = i + 1\nend\n" % r.choice([0, 1000])
    src += b"for j in std.iter([%s]) do let e = hs[j].join() T(std.to_string(j), if e == nil then 0 else e.context.status end) end\n" % b", ".join(b"%d" % x for x in order)
    s = cmds.shot(src, timeout=120)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    got = s.r.out.split(b"\n")
    bad = None
    rep = [l for l in got if l and not l.startswith(b"line-")]
    want = [b"%d i%d" % (j, codes[j]) for j in order]
    if s.r.stuck or s.r.status != 0: bad = "status %s stuck %s: %s" % (s.r.status, s.r.stuck, s.r.err[:300])
    elif sorted(l for l in s.r.err.split(b"\n") if l) != sorted(b"err-%d" % i for i in range(n)): bad = "lines on stderr lost, duplicated or broken: %r" % s.r.err[:200]
    elif rep != want: bad = "outcomes of concurrent blocks: " + diff.first_diff(b"\n".join(want), b"\n".join(rep))
    elif sorted(l for l in got if l.startswith(b"line-")) != sorted(b"line-%d" % i for i in range(n)): bad = "lines lost, duplicated or broken"
    log = [x.text() for x in s.recs if x.kind == "L"]
    if not bad and sorted(log) != sorted([b"s%d" % i for i in range(n)] + [b"t%d" % i for i in range(n)]): bad = "commands lost or run twice"
    res = {"ok": bad is None, "evals": n, "distinct": [repr(log)], "desc": bad, "stats": {"concurrent_blocks": n},
           "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": s.r.out, "records.txt": repr(log)}}
    shutil.rmtree(s.dir, ignore_errors=True)
    return confirm(storm, seed, res)


def crowd(seed):
    """Many blocks in flight at once, none of which can end before the script has started all of them and gone on."""
    r = random.Random(seed)
    n = r.choice([20, 40, 70, 130])
    kind = r.randrange(3)
    body = [b"hv s Ls$i Ggo Le$i", b"hv s x0 ; hv s Ls$i Ggo Le$i", b"hv s Ls$i Ggo Le$i | hv s T0"][kind]
    src = diff.HEAD + b"let hs = []\nfor i in std.range(0, %d, 1) do\nstd.push(hs, &{ %s })\nend\nstd.println(\"all\")\n{ hv s Lgo Mgo }\n" % (n, body)
    src += r.choice([b"for h in std.iter(hs) do T(\"j\", h.join()) end\n", b"while not std.is_empty(hs) do T(\"j\", std.pop(hs).join()) end\n"])
    s = cmds.shot(src, timeout=120)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    log = [x.text() for x in s.recs if x.kind == "L"]
    bad = None
    late = [x for x in s.recs if x.kind == "N"]
    if s.r.stuck: bad = "deadlock: all processes asleep"
    elif late: bad = "a block waited in vain for what the script does after starting %d blocks: the script did not go on meanwhile" % n
    elif s.r.status != 0 or s.r.out != b"all\n" + b"j n\n" * n: bad = "status %s: %s: %r" % (s.r.status, s.r.err[:300], s.r.out[:200])
    elif sorted(log) != sorted([b"go"] + [b"s%d" % i for i in range(n)] + [b"e%d" % i for i in range(n)]): bad = "commands lost or run twice: %d records of %d" % (len(log), 2 * n + 1)
    res = {"ok": bad is None, "evals": n, "distinct": [repr(log)], "desc": bad, "stats": {"in_flight_at_once": n}, "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": s.r.out, "records.txt": repr(log)}}
    shutil.rmtree(s.dir, ignore_errors=True)
    return confirm(crowd, seed, res)


def run(c):
    c.rule = ("random programs that start, join (in any order, from functions, twice) and drop asynchronous blocks with injected delays, failures and rendezvous between blocks and script; "
              "the log of started and ended commands is checked for exactly-once, order within a block and completion before join, each outcome against the model; distinct = observed interleavings")
    extra = {"hv": cmds.tool()}
    c.map(case, ["c14/%d/%d" % (c.seed, i) for i in range(c.n(700, 8000))], extra=extra, cap=c.cap(100, 1200))
    if c.viol: return
    c.map(storm, ["c14s/%d/%d" % (c.seed, i) for i in range(c.n(24, 200))], extra=extra, cap=c.cap(60, 600))
    if c.viol: return
    c.map(crowd, ["c14c/%d/%d" % (c.seed, i) for i in range(c.n(12, 120))], extra=extra, cap=c.cap(60, 600))
