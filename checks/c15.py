"""C15: commands leave no descriptors or processes behind."""
import os, random, shutil
from engine import common, cmds, diff
from engine.lang import *
from .c12 import confirm

# (source, outcome type); %d are replaced by the block's number
OK, ERR, CAP, CAPERR, PANIC = b"nil", b"error", b"dict", b"error", b"panic"
PLAIN = [
    (b"hv s Fx", OK), (b"hv s Fx x3", ERR), (b"hv s Fx k9", ERR), (b"no-such-program", ERR), (b"./plain", ERR), (b"no-such-program ?", ERR),
    (b"hv s Fx Oa | hv s Fx T0 > /dev/null", OK), (b"hv s Fx Oa | hv s Fx T0 | hv s Fx T0 | hv s Fx T0 | hv s Fx T0 > /dev/null", OK),
    (b"no-such-program | hv s Fx T0", ERR), (b"hv s Fx x0 | no-such-program", ERR), (b"hv s Fx x0 | no-such-program | hv s Fx T0", ERR), (b"no-a | no-b | no-c", ERR),
    (b"hv s Fx Oa > out", OK), (b"hv s Fx Oa >> out", OK), (b"hv s Fx Qa 2> out", OK), (b"hv s Fx Qa 2>1 > /dev/null | hv s Fx T0 > /dev/null", OK), (b"hv s Fx Oa Qb > out 2>1", OK), (b"hv s Fx Ob 1>2 2> out", OK),
    (b"hv s Fx T0 < in > out", OK), (b"hv s Fx T0 < no-file", ERR), (b"hv s Fx > no/dir/x", ERR), (b"hv s Fx x0 | hv s T0 < no-file | hv s Fx T0", ERR), (b"hv s Fx Oa > out > out2 >> out", OK), (b"hv s Fx T0 < in < in < in > out", OK),
    (b"hv s Fx T0 > out < no-file", ERR), (b"hv s Fx i1 << text", OK), (b"hv s Fx x0 << $big", OK), (b"hv s Fx R10 << $big", OK), (b"hv s Fx T0 << $big > /dev/null", OK), (b"hv s Fx i1 << a << b << c", OK), (b"hv s Fx T0 << $big | hv s Fx x0 ?", None), (b"no-such-program << $big", ERR),
    (b"hv s Fx x0 << text > no/dir/x", ERR),
    (b"hv s x1 ? ; hv s x2 ? ; hv s Fx x0", ERR), (b"hv s Fx x0 ; hv s Fx x1 ; hv s Lno", ERR), (b"hv s Fx W1:1:500000 ? | hv s R10", ERR), (b"yes ? | hv s Fx R10", ERR),
    (b"hv s Fx x0 > none*.zz", PANIC), (b"hv s Fx > none*.zz | hv s Fx T0 | hv s Fx T0", PANIC), (b"hv s Fx Oa | hv s Fx < none*.zz | hv s Fx T0", PANIC), (b"hv s $arr | hv s Fx < $arr", PANIC), (b"hv s $bad", PANIC), (b"none*.zz | hv s Fx T0", PANIC),
    (b"hv s Fx 3> out", PANIC), (b"hv s Fx Oa > out 3> out", PANIC), (b"hv s Fx 3>1", PANIC), (b"hv s Fx 2>3", PANIC), (b"hv s Fx > out 2>9", PANIC), (b"hv s Fx 0> out", PANIC), (b"hv s Fx Oa | hv s Fx T0 7> out | hv s Fx T0", PANIC),
    (b"hv s Fx 3>> out", PANIC), (b"hv s Fx 2> out 2>1 1>2 5>2", PANIC), (b"hv s Fx Oa Qb 2>1 > out 2>1 1>2", OK), (b"hv s Fx Qb > /dev/null 2>1 2>1 2>1", OK), (b"hv s Fx Oa 1>2 1>2 1>1 2> out", None), (b"hv s Fx T0 << $big < in > out", OK),
    (b"hv s Fx T0 < in << $big > out 9> out", PANIC), (b"hv s x0 ; hv s Fx Oa 3> out | hv s Fx T0", PANIC), (b"hv s Fx T0 << $big 3>1", PANIC), (b"hv s Fx Oa | hv s Fx T0 << $big 3>1 | hv s Fx T0", PANIC), (b"hv s Fx < . > no/dir", ERR), (b"hv s Fx > .", ERR),
    (b"$zero", ERR), (b"hv s Fx $zero", ERR), (b"A=$zero hv s Fx", ERR), (b"hv s Fx Oa | hv s Fx $zero | hv s Fx T0", ERR), (b"hv s Fx > $zero", ERR), (b"hv s Fx T0 << $zero > /dev/null", OK), (b"hv s Fx < $zero", ERR),
    (b"hv s Fx < ''", ERR), (b"hv s Fx > ''", ERR), (b"hv s Fx >> \"\"", ERR), (b"hv s Fx < $empty", ERR), (b"hv s Fx Oa > out < ''", ERR), (b"hv s Fx T0 < in > ''", ERR), (b"hv s Fx x0 | hv s Fx T0 < '' | hv s Fx T0", ERR), (b"''", ERR), (b"$empty a", ERR), (b"hv s Fx T0 << '' > /dev/null", OK),
    (b"hv s Fx < in < no-file < in", ERR), (b"hv s Fx > out2 > no/dir/x > out", ERR), (b"hv s Fx 2> out 2> no/dir/x", ERR), (b"hv s Fx T0 < .", ERR), (b"hv s Fx < in/x", ERR), (b"./in", ERR), (b".", ERR), (b"/", ERR), (b"no-such-program < in > out 2>1", ERR), (b"no-such-program | hv s Fx T0 > out", ERR),
    (b"hv s Fx T0 < in > out 2> out2 ; no-such-program > out 2>1 << $big", ERR), (b"hv s Fx Oa > /dev/full", None), (b"hv s Fx T0 < /dev/null", OK), (b"hv s Fx << text << $zero < in", OK),
    (b"hv s Fx x0 << none*.zz", PANIC), (b"hv s x0 ; hv s Fx << text > none*.zz", PANIC), (b"A=none*.zz hv s x0 | hv s Fx T0", PANIC),
]
ALONE = [(b"cd .", OK), (b"cd no-dir", ERR), (b"spawn0 hv nm s Fx", OK), (b"spawn0 hv nm s x4", ERR), (b"spawn0 no-such nm", ERR), (b"exec no-such-program", ERR), (b"exec0 no-such-program nm", ERR), (b"cd a b", PANIC), (b"cd none*.zz", PANIC), (b"spawn0 hv", PANIC)]
LIB = [(b"std.catch(std.import, \"./nope\")", PANIC)]


def block(r, i):
    """-> (source of an expression, expected class)"""
    k = r.random()
    if k < 0.12: s, o = r.choice(ALONE); return b"{ %s }" % s, o
    s, o = r.choice(PLAIN)
    if r.random() < 0.2:
        s2, o2 = r.choice(PLAIN)
        if o == OK: s, o = s + b" ; " + s2, o2 if not (o2 == PANIC and b"$" in s2) else PANIC
        if o == PANIC and b"$bad" in s or b"$arr" in s: pass
    k = r.random()
    if k < 0.4: return b"{ %s }" % s, o
    if k < 0.75: return b"${ %s }" % s, o if o in (ERR, PANIC, None) else CAP
    return b"(function () let h = &{ %s } h.join() end)()" % s, o


def case(item, grace=40):
    seed, many = item
    r = random.Random(seed)
    cwd = common.scratch()
    for n in ("in", "plain"):
        with open(os.path.join(cwd, n), "w") as f: f.write("data\n" * 10)
    src = bytearray(diff.HEAD + b"let big = \"0123456789abcdef\" for q in std.range(0, 14, 1) do big = big ++ big end\nlet arr = [\"a\", \"b\"] let bad = @[] let zero = \"a\\0b\" let empty = \"\"\n")
    probe = b"{ hv s P%s C%s }\n"
    src += probe % (b"base", b"base")
    exp = []; forms = []
    n = many or r.choice([1, 1, 2, 3, 6, 12])
    pool = [block(r, i) for i in range(n)]
    if many:
        # one loop over a handful of forms
        pool = pool[:r.choice([1, 3, 8])]
        src += b"for q in std.range(0, %d, 1) do\n" % (many // len(pool))
    for i, (s, o) in enumerate(pool):
        src += b"let r%d = std.catch(function () %s end)\nlet k%d = if std.type(r%d) == \"error\" and r%d.context == \"panic\" then \"panic\" else std.type(r%d) end\nr%d = nil\n" % (i, s, i, i, i, i, i)
        forms.append(s)
        if o is None: continue
        src += b"std.println(\"k%d \" ++ k%d)\n" % (i, i); exp.append(b"k%d %s" % (i, o))
    if many: src += b"end\n"; exp = exp * (many // len(pool))
    src += b"std.sleep(%d)\n" % (grace if any(b"<<" in s or b"${" in s for s in forms) else 1)
    src += probe % (b"end", b"end")
    src = bytes(src)
    path = os.path.join(common.W["tmp"], "lim.hsh")
    with open(path, "wb") as f: f.write(src)
    s = shot_limited(src, cwd, 64 if many else 400)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = judge(s, exp)
    res = {"ok": bad is None, "evals": n, "distinct": forms, "desc": bad, "stats": {"blocks": len(exp) or n, "commands": sum(x.kind == "F" for x in s.recs)},
           "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": s.r.out[-3000:], "records.txt": "\n".join(map(repr, s.recs[-50:]))}}
    shutil.rmtree(cwd, ignore_errors=True)
    if bad and grace < 1000:      # writers of here-texts end on their own: allow them ample time
        again = [case(item, 1500) for _ in range(3)]
        if any(x["ok"] for x in again): return {"ok": True, "evals": n, "stats": {"unreproduced": 1}}
        res = next(x for x in again if not x["ok"])
    return res


def shot_limited(src, cwd, nofile, release=None):
    s = cmds.Shot(); s.dir = cwd
    s.log = os.path.join(common.W["tmp"], "hvlog15")
    try: os.unlink(s.log)
    except FileNotFoundError: pass
    path = os.path.join(common.W["tmp"], "t.hsh")
    with open(path, "wb") as f: f.write(src)
    e = dict(common.BASE_ENV); e.update(HV_LOG=s.log, PATH=os.path.dirname(common.W["hv"]) + ":/usr/bin:/bin")
    if release:         # a file made from outside, as the starved shell may be unable to
        import threading
        t = threading.Timer(4, lambda: os.path.isdir(cwd) and open(release, "w").close()); t.daemon = True; t.start()
    s.r = common.run(["/bin/sh", "-c", "ulimit -n %d; exec \"$0\" \"$@\"" % nofile, common.W["hush"], path], env=e, cwd=cwd, timeout=150)
    s.recs = cmds.read_log(s.log)
    return s


def fds(x):
    return sorted(f.partition(b"=")[2] for f in x.f[1:])


def judge(s, exp):
    if s.r.stuck: return "deadlock: all processes asleep"
    if s.r.status != 0: return "status %s: %s" % (s.r.status, s.r.err[-300:])
    got = s.r.out.split(b"\n")[:-1]
    got = [l for l in got if l.startswith(b"k")]
    for i, (a, b) in enumerate(zip(exp or [], got)):
        if a != b: return "block %d: expected %r, got %r" % (i, a, b)
    if exp is not None and len(exp) != len(got): return "%d of %d blocks reported" % (len(got), len(exp))
    P = {x.text(): x for x in s.recs if x.kind == "P"}
    C = {x.text(): x for x in s.recs if x.kind == "C"}
    if b"base" not in P or b"end" not in P: return "the probes did not run"
    a, b = P[b"base"], P[b"end"]
    if len(b.f) > len(a.f): return "the shell holds %d descriptors, %d before: %r" % (len(b.f) - 1, len(a.f) - 1, [bytes.fromhex(f.partition(b"=")[2].decode()).decode() for f in b.f[1:]])
    kids = [k for k in C[b"end"].f[1:] if int(k.partition(b":")[0]) != C[b"end"].pid]
    if kids: return "children left behind: %r" % kids
    for x in s.recs:
        if x.kind == "F":
            n = sorted(int(f.partition(b"=")[0]) for f in x.f[1:])
            if n != [0, 1, 2]: return "a command was started with descriptors %r" % [f.partition(b"=")[0].decode() + "=" + bytes.fromhex(f.partition(b"=")[2].decode()).decode() for f in x.f[1:]]
    return None


def eof(seed):
    """End-of-file and broken pipes are seen at once; writers and readers wait for each other's progress."""
    r = random.Random(seed)
    cwd = common.scratch()
    src = bytearray(diff.HEAD); want = {}; sig = []; exp = b""
    for i in range(4):
        form = r.randrange(8)
        wrap = r.choice([b"{ %s }\n", b"let c%d = ${ %%s }\n" % i, b"let h%d = &{ %%s } h%d.join()\n" % (i, i)])
        bg = r.random() < 0.4      # with other blocks in flight
        if bg: src += b"let z%d = &{ hv s Gz%d ; hv s x0 | hv s T0 | hv s i0 }\n" % (i, i)
        if form == 0: body = b"hv s Oabc X Gg%d | hv s ie%d Mg%d" % (i, i, i); want[b"e%d" % i] = b"abc"
        elif form == 1: body = b"hv s Oabc X Gg%d | hv s T0 X Gg%d | hv s T0 | hv s ie%d Mg%d" % (i, i, i, i); want[b"e%d" % i] = b"abc"
        elif form == 2: body = b"hv s Oabc Gg%d | hv s R1 Mg%d x0 | hv s ie%d" % (i, i, i); want[b"e%d" % i] = b""
        elif form == 3: body = b"hv s W1:1:3000000 ? | hv s R10 x0 ; hv s Le%d" % i
        elif form == 4: body = b"yes ? | hv s R10 x0 ; hv s Le%d" % i
        elif form == 5: body = b"yes ? | hv s T0 ? | hv s T0 ? | hv s R10 ; hv s Le%d" % i
        elif form == 6: body = b"yes ? | no-such-program ? ; hv s Le%d" % i
        else: body = b"no-such-program ? | hv s ie%d" % i; want[b"e%d" % i] = b""
        src += wrap % body
        if bg: src += b"{ hv s Mz%d } z%d.join()\n" % (i, i)
        sig.append("%d%s%s" % (form, wrap[:4], bg))
    src += b"std.println(\"end\")\n"
    src = bytes(src)
    s = cmds.shot(src, cwd=cwd, timeout=100)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = None
    I = {x.text(): x.strs(1)[0] for x in s.recs if x.kind == "I"}
    L = {x.text() for x in s.recs if x.kind == "L"}
    if s.r.stuck: bad = "deadlock: all processes asleep"
    elif s.r.status != 0 or not s.r.out.endswith(b"end\n"): bad = "status %s: %s" % (s.r.status, s.r.err[:300])
    for x in s.recs:
        if x.kind == "N" and not bad: bad = "the reader of %s saw no end of file while its writer had closed the stream" % x.text().decode()
        if x.kind == "W" and not bad and int(x.f[3]) != 32: bad = "a writer without reader saw errno %s" % x.f[3]
    for k, v in want.items():
        if not bad and I.get(k) != v: bad = "reader %s: expected %r, read %r" % (k.decode(), v, I.get(k))
    res = {"ok": bad is None, "evals": 4, "distinct": sig, "desc": bad, "stats": {"stream_ends": 4},
           "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": s.r.out[-3000:], "records.txt": "\n".join(map(repr, s.recs))}}
    shutil.rmtree(cwd, ignore_errors=True)
    return confirm(eof, seed, res)


def starved(seed, grace=40):
    """Blocks that run out of descriptors at every possible point: they may fail, but leave nothing behind, and the shell goes on."""
    r = random.Random(seed)
    cwd = common.scratch()
    for n in ("in", "plain"):
        with open(os.path.join(cwd, n), "w") as f: f.write("data\n" * 10)
    src = bytearray(diff.HEAD + b"let big = \"0123456789abcdef\" for q in std.range(0, 14, 1) do big = big ++ big end\nlet arr = [\"a\", \"b\"] let bad = @[] let zero = \"a\\0b\" let empty = \"\"\n")
    src += b"{ hv s Pbase Cbase }\nlet hs = []\n"
    forms = []; k = 0
    for i in range(r.choice([4, 8, 16])):
        kind = r.randrange(5)
        if kind < 2: s, _ = block(r, i)
        elif kind == 2:      # held open until released
            src += b"let h%d = std.catch(function () &{ hv s Gdone | hv s T0 } end)\nstd.push(hs, h%d)\n" % (i, i); forms.append(b"held"); continue
        else:
            w = r.choice([2, 3, 5, 8, 13, 20]); st = [b"hv s Fx T0"] * w
            st[r.randrange(w - 1)] = r.choice([b"hv s Fx T0 << $big", b"hv s Fx T0 2>1", b"hv s Fx T0 < in", b"no-such-program", b"hv s Fx x1 ?"])
            p = b"hv s Fx Oa | " + b" | ".join(st) + b" > /dev/null"
            s = r.choice([b"{ %s }", b"${ %s }", b"{ hv s Fx x0 ; %s ; hv s Fx x0 }", b"(function () let h = &{ %s } h.join() end)()"]) % p
        src += b"let r%d = std.catch(function () %s end)\nstd.println(\"k \" ++ std.type(r%d))\nr%d = nil\n" % (i, s, i, i); k += 1
        forms.append(s)
    # the held blocks end once the file is there; the shell itself may not be able to start anything before
    src += b"std.println(\"held\")\nlet q = std.catch(function () { hv s Mdone } end)\nfor h in std.iter(hs) do if std.type(h) == \"dict\" then let q = h.join() end end\n"
    src += b"hs = nil\nstd.sleep(%d)\n{ hv s Pend Cend }\nstd.println(\"k end\")\n" % grace
    src = bytes(src)
    n = r.choice([14, 16, 18, 20, 24, 30, 40])
    nh = forms.count(b"held")
    s = shot_limited(src, cwd, n + 1 * nh, release=os.path.join(cwd, "done") if nh else None)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = judge(s, None)
    got = [l for l in s.r.out.split(b"\n") if l.startswith(b"k ")]
    if not bad and len(got) != k + 1: bad = "%d of %d blocks reported" % (len(got), k + 1)
    fails = sum(l in (b"k error",) for l in got)
    res = {"ok": bad is None, "evals": len(forms), "distinct": [b"%d " % n + b";".join(forms)], "desc": bad and "with %d descriptors: %s" % (n + nh, bad), "stats": {"starved_blocks": len(forms), "starved_failures": fails},
           "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": s.r.out[-3000:], "records.txt": "\n".join(map(repr, s.recs[-50:]))}}
    shutil.rmtree(cwd, ignore_errors=True)
    if bad and grace < 1000:
        again = [starved(seed, 1500) for _ in range(3)]
        if any(x["ok"] for x in again): return {"ok": True, "evals": len(forms), "stats": {"unreproduced": 1}}
        res = next(x for x in again if not x["ok"])
    return res


def crowded_out(seed, grace=40):
    """Blocks of a user who may have no more processes or threads: they may fail, but leave nothing behind, and the shell goes on."""
    r = random.Random(seed)
    uid = 20000 + os.getpid() % 40000       # a user of its own: the limit counts all that a user runs, and does not bind root
    become = ["setpriv", "--reuid", str(uid), "--regid", str(uid), "--clear-groups", "--inh-caps=-all", "--bounding-set=-all"]
    base = os.path.dirname(common.W["tmp"])
    cwd = common.scratch()
    for n in ("in", "plain"):
        with open(os.path.join(cwd, n), "w") as f: f.write("data\n" * 10)
        os.chmod(os.path.join(cwd, n), 0o644)
    for n in ("hush", "hv"): shutil.copy(common.W[n], os.path.join(cwd, n)); os.chmod(os.path.join(cwd, n), 0o755)
    src = bytearray(diff.HEAD + b"let big = \"0123456789abcdef\" for q in std.range(0, 14, 1) do big = big ++ big end\nlet arr = [\"a\", \"b\"] let bad = @[] let zero = \"a\\0b\" let empty = \"\"\n")
    src += b"{ hv s Pbase Cbase }\n"
    forms = []; k = 0
    for i in range(r.choice([4, 8, 12])):
        kind = r.randrange(4)
        if kind < 2: s, _ = block(r, i)
        else:
            w = r.choice([2, 2, 3, 5, 8]); st = [b"hv s Fx T0"] * w
            st[r.randrange(w - 1)] = r.choice([b"hv s Fx T0 << $big", b"hv s Fx T0 2>1", b"hv s Fx T0 << text", b"no-such-program", b"hv s Fx x1 ?"])
            p = b"hv s Fx Oa | " + b" | ".join(st) + b" > /dev/null"
            s = r.choice([b"{ %s }", b"${ %s }", b"{ hv s Fx x0 ; %s ; hv s Fx x0 }", b"(function () let h = &{ %s } h.join() end)()"]) % p
        src += b"let r%d = std.catch(function () %s end)\nstd.println(\"k \" ++ std.type(r%d))\nr%d = nil\nstd.sleep(2)\n" % (i, s, i, i); k += 1
        forms.append(s)
    src += b"std.sleep(%d)\n{ hv s Pend Cend }\nstd.println(\"k end\")\n" % grace
    src = bytes(src)
    n = r.choice([2, 2, 3, 3, 4, 5, 6])
    s = cmds.Shot(); s.dir = cwd; log = os.path.join(cwd, "hvlog"); path = os.path.join(cwd, "t.hsh")
    with open(path, "wb") as f: f.write(src)
    e = dict(common.BASE_ENV); e.update(HV_LOG=log, PATH=cwd + ":/usr/bin:/bin")
    for d in (base, common.W["tmp"]): os.chmod(d, 0o711)
    for d in [cwd] + [os.path.join(cwd, x) for x in os.listdir(cwd)]: os.chown(d, uid, uid)
    s.r = common.run(become + ["prlimit", "--nproc=%d" % n, os.path.join(cwd, "hush"), path], env=e, cwd=cwd, timeout=150)
    if s.r.timeout and not s.r.stuck: return {"ok": True, "inconclusive": "watchdog"}
    s.recs = cmds.read_log(log)
    bad = judge(s, None)
    got = [l for l in s.r.out.split(b"\n") if l.startswith(b"k ")]
    if not bad and len(got) != k + 1: bad = "%d of %d blocks reported" % (len(got), k + 1)
    res = {"ok": bad is None, "evals": len(forms), "distinct": [b"p%d " % n + b";".join(forms)], "desc": bad and "with %d processes and threads: %s" % (n, bad),
           "stats": {"crowded_blocks": len(forms), "crowded_failures": sum(l == b"k error" for l in got)},
           "files": {"program.hsh": src, "stderr.txt": s.r.err, "observed.txt": s.r.out[-3000:], "records.txt": "\n".join(map(repr, s.recs[-50:]))}}
    shutil.rmtree(cwd, ignore_errors=True)
    if bad and grace < 1000:
        again = [crowded_out(seed, 1500) for _ in range(3)]
        if any(x["ok"] for x in again): return {"ok": True, "evals": len(forms), "stats": {"unreproduced": 1}}
        res = next(x for x in again if not x["ok"])
    return res


def run(c):
    c.rule = ("random blocks of every kind and failure mode; the commands record their own descriptors and, before and after, the shell's descriptors and children from /proc; "
              "long loops run with a limit of 64 descriptors; readers and writers that wait for each other expose pipe ends kept open; one evaluation per block, distinct by block text")
    extra = {"hv": cmds.tool()}
    c.map(eof, ["c15e/%d/%d" % (c.seed, i) for i in range(c.n(120, 1500))], extra=extra, cap=c.cap(100, 900))
    if c.viol: return
    c.map(case, [("c15/%d/%d" % (c.seed, i), 0) for i in range(c.n(700, 8000))], extra=extra, cap=c.cap(80, 1200))
    if c.viol: return
    c.map(starved, ["c15s/%d/%d" % (c.seed, i) for i in range(c.n(150, 3000))], extra=extra, cap=c.cap(80, 900))
    if c.viol: return
    c.map(case, [("c15m/%d/%d" % (c.seed, i), c.n(200, 1500)) for i in range(c.n(40, 200))], extra=extra, cap=c.cap(80, 900))
    if c.viol: return
    import subprocess
    try: able = subprocess.run(["setpriv", "--reuid", "20000", "--regid", "20000", "--clear-groups", "--inh-caps=-all", "--bounding-set=-all", "prlimit", "--nproc=9", "true"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    except OSError: able = False
    if able: c.map(crowded_out, ["c15p/%d/%d" % (c.seed, i) for i in range(c.n(150, 2500))], extra=extra, cap=c.cap(60, 900))
    else: c.stats["crowded_unavailable"] = 1
