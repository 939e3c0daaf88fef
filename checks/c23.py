"""C23: randomness, time and input primitives."""
import math, os, random, select, shutil, signal, subprocess, time
from engine import common, cmds, diff, vals
from engine.lang import *
from . import c08
from .c12 import confirm

EDGE = [0, 1, -1, 2, 3, 5, 10, 100, 255, 256, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 53) + 1, I64_MAX, I64_MAX - 1, I64_MIN, I64_MIN + 1, -(1 << 32), 1 << 62]


def out(q, seed, n, bad, files, stats, distinct=(), f=None, sample=None):
    res = {"ok": bad is None, "evals": n, "stats": stats, "desc": bad, "files": files, "distinct": list(distinct)}
    if sample: res["sample"] = sample
    return confirm(f, seed, res) if f else res


def values(q):
    return [vals.parse(l.partition(b" ")[2]) for l in q.out.split(b"\n")[:-1]]


# --------------------------------------------------------------- ranges and distribution
def ranges(seed):
    r = random.Random(seed)
    src = bytearray(diff.HEAD)
    src += b"std.randseed(%s)\n" % c08.lit_int(r.choice(EDGE) if r.random() < 0.3 else r.getrandbits(64) - (1 << 63)) if r.random() < 0.7 else b""
    plan = []
    for _ in range(12):
        k = r.random()
        if k < 0.2: plan.append(("rand", 400)); src += b"let i = 0 while i < 400 do T(\"v\", std.rand()) i = i + 1 end\n".replace(b"let i = 0", b"let i%d = 0" % len(plan)).replace(b"while i ", b"while i%d " % len(plan)).replace(b"i = i + 1", b"i%d = i%d + 1" % (len(plan), len(plan)))
        else:
            if k < 0.5: a = r.choice(EDGE); b = a + r.choice([0, 1, 2, 7, 30]) if a < I64_MAX - 30 else a
            elif k < 0.7: a, b = sorted([r.choice(EDGE), r.choice(EDGE)])
            elif k < 0.8: a, b = I64_MIN, I64_MAX
            else: a, b = sorted([r.randint(-50, 50), r.randint(-50, 50)])
            m = (b - a + 1) * 40 if b - a < 64 else 200
            m = min(max(m, 20), 2600)
            n = len(plan); plan.append(("int", m, a, b))
            src += b"let j%d = 0 while j%d < %d do T(\"v\", std.randint(%s, %s)) j%d = j%d + 1 end\n" % (n, n, m, c08.lit_int(a), c08.lit_int(b), n, n)
    q = common.hush(bytes(src))
    if q.timeout and not q.stuck: return {"ok": True, "inconclusive": "watchdog"}
    bad = None; total = 0; full = 0
    vs = values(q) if q.status == 0 else []
    if q.status != 0: bad = "status %s: %s" % (q.status, q.err[-300:])
    at = 0
    for p in plan:
        if bad: break
        xs = vs[at:at + p[1]]; at += p[1]; total += len(xs)
        if len(xs) != p[1]: bad = "missing draws"
        elif p[0] == "rand":
            w = [x for x in xs if not (isinstance(x, float) and 0.0 <= x < 1.0)]
            if w: bad = "std.rand gives %r" % w[0]
            elif len(set(xs)) < 390: bad = "std.rand repeats itself: %d distinct values in 400 draws" % len(set(xs))
            else:
                # mean of 400 uniform draws: sd = 0.0144; 8 sd
                m = sum(xs) / len(xs)
                if abs(m - 0.5) > 0.12 or not any(x < 0.1 for x in xs) or not any(x >= 0.9 for x in xs): bad = "std.rand is not spread over [0, 1): mean %.3f, least %.3f, greatest %.3f" % (m, min(xs), max(xs))
        else:
            a, b = p[2], p[3]
            w = [x for x in xs if not (type(x) is int and a <= x <= b)]
            if w: bad = "std.randint(%d, %d) gives %r" % (a, b, w[0])
            elif b - a < 64 and p[1] >= 40 * (b - a + 1):
                miss = set(range(a, b + 1)) - set(xs); full += 1
                # (1 - 1/k)^(40 k) < e^-40
                if miss: bad = "std.randint(%d, %d) never gives %s in %d draws" % (a, b, sorted(miss)[:5], p[1])
            elif b - a > 1 << 20:
                if len(set(xs)) < p[1] // 2: bad = "std.randint(%d, %d) repeats itself" % (a, b)
                elif b - a > 1 << 40:
                    h = sum(1 for x in xs if x - a > (b - a) // 2)
                    if h == 0 or h == len(xs): bad = "std.randint(%d, %d): all %d draws in one half" % (a, b, len(xs))
                    # a class of eight is missed by 200 draws with probability (7/8)^200 < 1e-11
                    miss = set(range(8)) - {x & 7 for x in xs}
                    if miss: bad = "std.randint(%d, %d): no draw of %d is %s modulo 8" % (a, b, len(xs), sorted(miss))
                    miss = set(range(8)) - {(x - a) * 8 // (b - a + 1) for x in xs}
                    if miss: bad = "std.randint(%d, %d): no draw of %d in eighths %s of the range" % (a, b, len(xs), sorted(miss))
    return out(q, seed, total, bad, {"program.hsh": bytes(src), "stdout.txt": q.out[-20000:]}, {"draws": total, "ranges_exhausted": full}, [repr(plan).encode()], ranges, {"plan": repr(plan[:4])})


def seeds(seed):
    """The sequence after a seed depends on the seed alone, and differs between seeds."""
    r = random.Random(seed)
    draws = [r.choice([b"std.rand()", b"std.randint(0, 1000000000)", b"std.randint(-9223372036854775807 - 1, 9223372036854775807)", b"std.randint(%d, %d)" % (r.randint(0, 9), r.randint(10, 99)), b"std.rand()"]) for _ in range(r.choice([4, 10, 25]))]
    draws[:2] = [b"std.rand()", b"std.randint(-9223372036854775807 - 1, 9223372036854775807)"]
    base = r.getrandbits(64) - (1 << 63)
    ns = {base, base ^ 1, base ^ (1 << r.randrange(63)), r.choice(EDGE), r.choice(EDGE), (-base if base != I64_MIN else 0), r.randint(-100, 100)}
    k = r.randint(0, 400); ns |= {k, k + 1, k + 256}
    fl = r.randrange(63); ns |= {1 << fl, (1 << fl) - 1}
    ns = sorted(ns); r.shuffle(ns)
    order = ns + [r.choice(ns) for _ in range(4)]
    def body(order, noise):
        src = bytearray(diff.HEAD)
        for i, n in enumerate(order):
            if noise: src += r.choice([b"", b"std.rand()\n", b"std.randint(1, 5)\n", b"{ true }\n", b"std.randseed(9)\nstd.rand()\n", b"std.sort([3, 1, 2])\n"])
            src += b"std.randseed(%s)\n" % c08.lit_int(n)
            src += b"let s%d = [" % i + b", ".join(draws) + b"]\nT(\"s\", s%d)\n" % i if not noise or r.random() < 0.5 else b"let s%d = []\n" % i + b"".join(b"std.push(s%d, %s)\n" % (i, d) + r.choice([b"", b"", b"{ true }\n", b"std.len(\"x\")\n", b"std.catch(function () std.randint(2, 1) end)\n"]) for d in draws) + b"T(\"s\", s%d)\n" % i
        return bytes(src)
    a = body(order, False); o2 = list(order); r.shuffle(o2); b = body(o2, True)
    qa = common.hush(a); qb = common.hush(b)
    if (qa.timeout or qb.timeout) and not (qa.stuck or qb.stuck): return {"ok": True, "inconclusive": "watchdog"}
    bad = None; seen = {}
    if qa.status or qb.status: bad = "status %s, %s: %s" % (qa.status, qb.status, (qa.err + qb.err)[-300:])
    else:
        for o, q in ((order, qa), (o2, qb)):
            for n, l in zip(o, q.out.split(b"\n")[:-1]):
                if seen.setdefault(n, l) != l: bad = "the draws after std.randseed(%d) are not always the same: %r and %r" % (n, seen[n][:120], l[:120])
        back = {}
        for n, l in seen.items():
            if back.setdefault(l, n) != n: bad = "std.randseed(%d) and std.randseed(%d) give the same draws" % (n, back[l])
    return out(qa, seed, len(order) * 2, bad, {"a.hsh": a, "b.hsh": b, "a.txt": qa.out, "b.txt": qb.out}, {"seedings": 2 * len(order), "seeds": len(ns)}, [repr((n, tuple(draws))).encode() for n in ns], seeds)


# --------------------------------------------------------------- standard input
def line(r):
    k = r.random()
    if k < 0.15: return b""
    if k < 0.5: return bytes(r.choice(b"abc \t\r\x00\x01;'\"$\\#") for _ in range(r.randint(1, 30)))
    if k < 0.7: return "".join(r.choice("a\u00e9\u20ac\U0001f600\u2028\u0085") for _ in range(r.randint(1, 20))).encode()
    if k < 0.8: return b"x" * r.choice([1022, 1023, 1024, 1025, 4095, 4096, 8190, 8191, 8192, 8193, 16384])
    if k < 0.85: return "\u20ac".encode() * r.choice([2730, 2731, 5000])
    if k < 0.9: return bytes(r.choice([0xff, 0x80, 0xc3, 65]) for _ in range(r.randint(1, 10)))
    return b"line %d" % r.randrange(1000)


def utf8(b):
    try: b.decode("utf-8"); return True
    except UnicodeDecodeError: return False


def read(seed):
    r = random.Random(seed)
    ls = [line(r) + b"\n" for _ in range(r.choice([0, 1, 3, 10, 40]))]
    if ls and r.random() < 0.4: ls[-1] = ls[-1][:-1]
    if ls and ls[-1] == b"": ls.pop()
    if ls and r.random() < 0.04: ls[r.randrange(len(ls))] = b"long " * r.choice([30000, 300000]) + b"\n"
    data = b"".join(ls)
    n = len(ls) + r.choice([1, 2, 3])
    src = bytearray(diff.HEAD)
    prompts = []
    for i in range(n):
        pr = None if r.random() < 0.6 else r.choice([b"", b"> ", b"name?\n", b"\xff\x00:", b"p" * 300])
        prompts.append(pr)
        call = b"std.read()" if pr is None else b"std.read(%s)" % c08.L(pr)
        src += r.choice([b"", b"", b"std.rand()\n", b"{ true < /dev/null }\n"]) + b"let v%d = std.catch(function () %s end)\nT(\"r%d\", v%d)\n" % (i, call, i, i)
    src = bytes(src)
    d = common.scratch(); script = os.path.join(d, "t.hsh")
    with open(script, "wb") as f: f.write(src)
    how = r.choice(["pipe", "file", "slow", "slow"])
    if how == "slow":
        p = subprocess.Popen([common.W["hush"], script], stdin=subprocess.PIPE, stdout=open(os.path.join(d, "o"), "wb"), stderr=subprocess.PIPE, env=common.BASE_ENV, cwd=d)
        i = 0
        try:
            while i < len(data):
                k = r.choice([1, 2, 3, 7, 50, 1000, 5000]); p.stdin.write(data[i:i + k]); p.stdin.flush(); i += k
                if r.random() < 0.3: time.sleep(r.choice([0.0005, 0.003]))
            p.stdin.close()
        except BrokenPipeError: pass
        try: p.wait(60)
        except subprocess.TimeoutExpired: p.kill(); p.wait(); shutil.rmtree(d, ignore_errors=True); return {"ok": True, "inconclusive": "watchdog"}
        err = p.stderr.read(); p.stderr.close(); status = p.returncode
        with open(os.path.join(d, "o"), "rb") as f: so = f.read()
    else:
        if how == "file":
            with open(os.path.join(d, "in"), "wb") as f: f.write(data)
            with open(os.path.join(d, "in"), "rb") as f: q = subprocess.run([common.W["hush"], script], stdin=f, capture_output=True, env=common.BASE_ENV, cwd=d, timeout=120)
            so, err, status = q.stdout, q.stderr, q.returncode
        else:
            q = common.run([common.W["hush"], script], stdin=data, env=common.BASE_ENV, cwd=d)
            if q.timeout and not q.stuck: shutil.rmtree(d, ignore_errors=True); return {"ok": True, "inconclusive": "watchdog"}
            so, err, status = q.out, q.err, q.status
    shutil.rmtree(d, ignore_errors=True)
    bad = None; at = 0
    if status != 0: bad = "status %s: %s" % (status, err[-300:])
    for i in range(n):
        if bad: break
        pr = prompts[i] or b""
        if so[at:at + len(pr)] != pr: bad = "read %d: the prompt %r is not what was written: %r" % (i, pr, so[at:at + len(pr) + 20]); break
        at += len(pr)
        e = so.find(b"\n", at)
        rec = so[at:e]; at = e + 1
        want = ls[i] if i < len(ls) else b""
        head = b"r%d " % i
        if not rec.startswith(head): bad = "read %d: expected a record, observed %r" % (i, rec[:100]); break
        v = vals.parse(rec[len(head):])
        if utf8(want):
            if v != want: bad = "read %d: the line is %r, std.read gives %r" % (i, want[:100], (v if isinstance(v, bytes) else ser(v))[:100])
        elif not isinstance(v, Err): bad = "read %d: a line that is not UTF-8 (%r) is read as %r" % (i, want[:60], v[:60])
    if not bad and at != len(so): bad = "more output than reads: %r" % so[at:at + 100]
    return out(None, seed, n, bad, {"program.hsh": src, "stdin.bin": data, "stdout.txt": so, "stderr.txt": err}, {"reads": n, "lines": len(ls), "stdin_" + how: 1}, [data + repr(prompts).encode()], read, {"lines": repr(ls[:3])[:200], "how": how})


def interactive(seed):
    """A dialogue: each prompt is visible before its line is typed, each sleep lasts long enough."""
    r = random.Random(seed)
    steps = []; src = bytearray(diff.HEAD)
    for i in range(r.choice([2, 4, 6])):
        pr = r.choice([b"> ", b"name: ", b"\xe2\x82\xac?", b"x" * 200, b"a\nb"]); ms = r.choice([0, 1, 5, 20, 60, 150]); ans = line(r)[:300].replace(b"\n", b"")
        if not utf8(ans): ans = b"ok"
        kids = r.choice([b"", b"", b"let k%d = &{ true; true }\n" % i])
        steps.append((pr, ms, ans))
        src += b"let v%d = std.read(%s)\n" % (i, c08.L(pr)) + kids + b"std.sleep(%d)\nT(\"r%d\", v%d)\n" % (ms, i, i)
        if kids: src += b"k%d.join()\n" % i
    src = bytes(src)
    d = common.scratch(); script = os.path.join(d, "t.hsh")
    with open(script, "wb") as f: f.write(src)
    p = subprocess.Popen([common.W["hush"], script], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=common.BASE_ENV, cwd=d)
    fd = p.stdout.fileno(); buf = b""; bad = None; inc = None; slept = 0
    def upto(want):
        """Wait until the bytes are there."""
        nonlocal buf
        end = time.monotonic() + 40
        while len(buf) < len(want):
            if not select.select([fd], [], [], max(0, end - time.monotonic()))[0]: return None
            x = os.read(fd, 65536)
            if not x: break
            buf += x
        got, buf = buf[:len(want)], buf[len(want):]
        return got
    for i, (pr, ms, ans) in enumerate(steps):
        g = upto(pr)
        if g is None:
            with open("/proc/%d/stat" % p.pid) as f: state = f.read().rpartition(")")[2].split()[0]
            if state == "S": bad = "step %d: the prompt %r is not visible while std.read waits (%r so far)" % (i, pr, buf)
            else: inc = "watchdog"
            break
        if g != pr: bad = "step %d: expected the prompt %r, observed %r" % (i, pr, g); break
        t = time.monotonic()
        p.stdin.write(ans + b"\n"); p.stdin.flush()
        if ms >= 60 and r.random() < 0.5:
            time.sleep(ms / 3000); os.kill(p.pid, signal.SIGSTOP); time.sleep(0.002); os.kill(p.pid, signal.SIGCONT)
        rec = b"r%d s%s\n" % (i, (ans + b"\n").hex().encode())
        g = upto(rec)
        t = time.monotonic() - t
        if g is None: inc = "watchdog"; break
        if g != rec: bad = "step %d: expected %r, observed %r" % (i, rec, g); break
        slept += ms
        if t < ms / 1000: bad = "step %d: std.sleep(%d) lasted %.4f s at most" % (i, ms, t); break
    p.stdin.close()
    if not bad and not inc:
        try: st = p.wait(60)
        except subprocess.TimeoutExpired: inc = "watchdog"
        else:
            if st != 0: bad = "status %s" % st
    if p.poll() is None: p.kill(); p.wait()
    p.stdout.close(); shutil.rmtree(d, ignore_errors=True)
    if inc: return {"ok": True, "inconclusive": inc}
    return out(None, seed, len(steps), bad, {"program.hsh": src}, {"dialogue_steps": len(steps), "slept_ms": slept}, [repr(steps).encode()], interactive)


def run(c):
    c.rule = ("draws checked for range, coverage of small ranges, spread; sequences after a seed compared across processes, orders and interleaved work; input streams of hostile lines through pipe, file and slow writer, each line accounted for; dialogues with prompts and measured sleeps; distinct by plan or stream")
    k = lambda f, q, t: c.map(f, ["c23%s/%d/%d" % (f.__name__, c.seed, i) for i in range(c.n(q, t))], cap=c.cap(100, 1200), chunk=4)
    for f, q, t in ((ranges, 250, 8000), (seeds, 400, 8000), (read, 1200, 30000), (interactive, 250, 4000)):
        k(f, q, t)
        if c.viol: return
