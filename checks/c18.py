"""C18: memory management is safe and invisible."""
import os, random, resource, shutil, subprocess, time
from engine import common, cmds, diff, gen, printer
from engine.lang import *
from . import c03, c07, c10

ASAN = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1"


def execute(src, binary, period, timeout=60):
    env = {"ASAN_OPTIONS": ASAN}
    if period: env["HUSH_VERIF_GC"] = str(period)
    return common.hush(src, binary=binary, env=env, timeout=timeout)


def key(r):
    """What a script does: output, status, and whether and where it panicked."""
    p = parse_panic(r.err.decode("utf-8", "replace").strip())
    return norm_output(r.out), r.status, p if p is None else p[:3]


def compare(src, periods, stats, exp=None):
    """None, or the description of a violation, or "" when inconclusive."""
    base = execute(src, common.W["hush"], 0)
    if base.timeout: return ""
    if exp is not None and (base.status, base.out) != (0, exp):
        return "a reachable value changed: %s; status %s, stderr %r" % (diff.first_diff(exp, base.out), base.status, base.err[:400])
    for label, binary, period in periods:
        r = execute(src, binary, period, timeout=120)
        if r.timeout: return ""
        stats["runs_" + label] = stats.get("runs_" + label, 0) + 1
        if b"AddressSanitizer" in r.err or b"runtime error" in r.err: return "sanitizer report (%s): %s" % (label, r.err.decode("utf-8", "replace")[:1500])
        if r.status < 0 and base.status >= 0: return "killed by signal %d (%s); %s" % (-r.status, label, r.err[-300:])
        if key(r) != key(base):
            return "the execution changes when garbage is collected more often (%s): %s; status %s against %s; stderr %r against %r" % (
                label, diff.first_diff(norm_output(base.out), norm_output(r.out)), base.status, r.status, base.err[:300], r.err[:300])
    if base.status < 0 and b"overflow" not in base.err: return "killed by signal %d: %s" % (-base.status, base.err[-300:])
    return None


def judged(src, periods, events=0, distinct=None, label="programs", exp=None):
    stats = {label: 1}
    d = compare(src, periods, stats, exp)
    if d == "": return {"ok": True, "inconclusive": "watchdog"}
    if d:
        again = [compare(src, periods, {}, exp) for _ in range(2)]
        if not any(again): return {"ok": True, "stats": {"unreproduced": 1}}
    return {"ok": d is None, "evals": len(periods), "distinct": [distinct or src], "desc": d, "stats": stats, "files": {"program.hsh": src}, "sample": {"program": src[len(diff.HEAD):][:600].decode("utf-8", "replace"), "runs": [(l, p) for l, _, p in periods]}}


def periods(r, heavy=False):
    W = common.W
    a = [("asan", W["asan"], 0), ("asan-gc", W["asan"], r.choice([1, 2, 3, 7]) if not heavy else r.choice([50, 97]))]
    b = [("gc", W["gc"], r.choice([1, 2, 5]) if not heavy else r.choice([20, 60]))]
    return r.choice([a, b + a[1:], a[1:]])


# ------------------------------------------------------------------ generated programs
def program(item):
    seed, kind = item
    r = random.Random(seed)
    if kind < 0:
        b = gen.Gen(random.Random(seed), r.choice(["mix", "scope", "flow", "panic"]), r.choice([20, 40, 60])).program()
    else:
        ks = c03.KINDS[:6] + c07.KINDS
        b = ks[kind % len(ks)](random.Random(seed))
    src = diff.HEAD + printer.source(b, random.Random(seed), "pretty", start=(2, 0))
    return judged(src, periods(r, heavy=len(src) > 30000))


# ------------------------------------------------------------------ holders
CHURN = (b"let churn = function (n)\nlet junk = []\nfor i in std.range(0, n, 1) do\nlet d = @[ a: [i, \"junk\" ++ std.to_string(i)], f: function () i end ]\nd.me = d\nstd.push(junk, d)\nend\nstd.len(junk)\nend\n"
         b"let keep = nil\n")

class Holder:
    """Builds expressions that keep a value reachable in one particular way and get it back later."""
    def __init__(self, r): self.r, self.n, self.cyclic = r, 0, False

    def leaf(self):
        r = self.r; self.n += 1
        t = b"leaf-%d-" % self.n + bytes(r.choice(b"abcdef") for _ in range(r.choice([0, 5, 40])))
        # built at run time, so that nothing else keeps it
        x = lambda b: b"s" + b.hex().encode()
        v, self.value = r.choice([(b"(\"%s\" ++ \"%s\")" % (t[:6], t[6:]), x(t)), (b"[\"%s\" ++ \"\", %d]" % (t, self.n), b"[%s,i%d,]" % (x(t), self.n)),
            (b"[\"%s\" ++ \"\", [%d]]" % (t, self.n), b"[%s,[i%d,],]" % (x(t), self.n)), (b"std.split(\"%s\", \"-\")" % t, b"[" + b"".join(x(p) + b"," for p in t.split(b"-")) + b"]")])
        return v

    def hold(self, v):
        """-> (expression creating the holder, how to get the value from it; %s is the holder)"""
        r = self.r
        forms = [
            (b"[%s]" % v, b"%s[0]"),
            (b"[1, [%s], 2]" % v, b"%s[1][0]"),
            (b"@[ k: %s ]" % v, b"%s.k"),
            (b"std.error(\"e\", %s)" % v, b"%s.context"),
            (b"(function () let c = %s return function () c end end)()" % v, b"%s()"),
            (b"(function (c) let get = function () function () c end end return get end)(%s)" % v, b"%s()()"),
            (b"std.iter([%s])" % v, b"%s().value"),
            (b"std.iter(@[ k: %s ])" % v, b"%s().value.value"),
            (b"std.bind([%s], function () self[0] end)" % v, b"%s()"),
            (b"std.bind(@[ x: %s ], function () churn(2) self.x end)" % v, b"%s()"),
            (b"(function () let o = @[ v: %s, get: function () churn(1) self.v end ] return o end)()" % v, b"%s.get()"),
            (b"(function () let i = 0 let c = [%s] return std.bind(c, function () i = i + 1 self[0] end) end)()" % v, b"%s()"),
            (b"std.catch(function () churn(2) return [%s] end)" % v, b"%s[0]"),
            (b"(function () let a = [3, 1, 2] std.sort(a) std.push(a, %s) return a end)()" % v, b"std.pop(%s)"),
        ]
        key = (b"(function () let d = @[] d[[%s]] = 1 return d end)()" % v, b"std.iter(%s)().value.key[0]")
        cycle = (b"(function () let a = [] a = [a, %s] std.push(a[0], a) return a end)()" % v, b"%s[0][0][1]")
        if not self.cyclic: forms += [key, key]        # a cyclic value can't be hashed
        forms += [cycle]
        f = r.choice(forms)
        if f is cycle: self.cyclic = True
        return f

    def pending(self, v):
        """The value is only held by an unfinished evaluation while garbage is made."""
        return self.r.choice([
            b"(function (a, b) a end)(%s, churn(5))", b"[%s, churn(4)][0]", b"@[ a: %s, b: churn(3) ].a", b"(function () churn(2) return %s end)()",
            b"(function () for x in std.iter([%s]) do churn(3) return x end end)()", b"(function (x) let y = x x = churn(3) return y end)(%s)",
            b"(function () let e = std.error(\"d\", %s) churn(2) return e.context end)()", b"(function () let f = function () std.error(\"x\", 1)? end let z = %s f() churn(2) return z end)()",
            b"(function () let z = %s std.catch(function () churn(2) std.panic(\"p\") end) return z end)()", b"(if churn(1) > 0 then %s else 0 end)",
            b"(function () let a = [nil] a[churn(1) - 1] = %s return a[0] end)()", b"std.bind(1, function (q) churn(2) return q end)(%s)",
        ]) % v


def holders(seed):
    r = random.Random(seed)
    h = Holder(r)
    src = diff.HEAD + CHURN
    lines = []
    for k in range(r.randint(3, 6)):
        v = h.leaf(); want = h.value
        path = b"%s"; h.cyclic = False
        for _ in range(r.choice([1, 2, 3, 5])):
            if r.random() < 0.35: v = h.pending(v)
            v, get = h.hold(v)
            path = path.replace(b"%s", get)
        src += b"let h%d = %s\n" % (k, v)
        if r.random() < 0.3: src += b"churn(%d)\n" % r.choice([3, 30])
        lines.append((b"h%d" % k, path, want))
    if r.random() < 0.3:
        # a value only a module's variable keeps, in a module imported at depth
        v = h.leaf()
        with open(os.path.join(common.W["tmp"], "m.hsh"), "wb") as f:
            f.write(CHURN + b"let x = %s\nlet keep2 = [x]\nchurn(3)\n" % h.pending(v) + r.choice([b"@[ get: function () churn(2) x end ]\n", b"let m = @[] m.get = function () churn(3) keep2[0] end\nm\n"]))
        src += r.choice([b"let hm = std.import(\"m.hsh\")\n", b"let _u = (function (q) let z = [q] std.import(\"m.hsh\") end)([1])\nlet hm = @[ get: function () std.import(\"m.hsh\").get() end ]\n"])
        lines.append((b"hm", b"%s.get()", h.value))
    src += b"churn(20)\n"
    r.shuffle(lines)
    exp = b""
    for n, p, w in lines:
        src += b"T(\"%s\", %s)\nchurn(2)\n" % (n, p % n)
        exp += n + b" " + w + b"\n"
    stats = periods(r)
    if r.random() < 0.7: stats = [("asan-gc", common.W["asan"], 1)]
    res = judged(src, stats, label="holder_programs", exp=exp)
    return res


# ------------------------------------------------------------------ growth
LOOPS = {
    "cycle_array": b"let a = [i] std.push(a, a)",
    "cycle_two": b"let a = [i] let b = [a] std.push(a, b)",
    "cycle_dict": b"let d = @[ i: i ] d.me = d",
    "cycle_closure": b"let f = nil f = function () f end",
    "cycle_method": b"let o = @[ v: 0 ] o.get = function () o end o.get()",
    "cycle_error": b"let a = [] std.push(a, std.error(\"x\", a))",
    "cycle_iter": b"let a = [1] let it = std.iter(a) std.push(a, it)",
    "cycle_dict_iter": b"let a = @[ x: 1 ] a.it = std.iter(a)",
    "cycle_bind": b"let a = [1] std.push(a, std.bind(a, function () self end))",
    "cycle_key": b"let d = @[] let k = [i] d[k] = k",
    "nested_fns": b"let g = (function (n) let h = function () function () n end end return h()() end)(i)",
    "strings": b"let s = \"abc\" ++ std.to_string(i) s = std.replace(s, \"b\", \"xyz\") let p = std.split(s, \"y\")",
    "panics": b"let e = std.catch(function () std.panic(\"p\" ++ std.to_string(i)) end)",
    "type_panics": b"let e = std.catch(function () [1][i + 1] end)",
    "panic_deep": b"let e = std.catch(function () (function (a, b) (function (c) 1 + \"x\" end)(a) end)(i, [i]) end)",
    "try": b"let e = (function () std.error(\"x\", i)? end)()",
    "sort": b"let a = [i, \"s\", nil, 3] std.sort(a)",
    "json": b"let j = std.json.decode(std.json.encode(@[ a: [i, \"x\"] ]))",
    "range": b"for q in std.range(0, 3, 1) do let z = [q] end",
    "break_loop": b"for q in std.iter([1, 2, 3]) do if q == 2 then break end end",
    "return_loop": b"let z = (function () for q in std.iter([1, 2, 3]) do let w = [q] if q == 2 then return w end end end)()",
    "wrong_args": b"let e = std.catch(function () (function (a, b) a end)(i) end)",
    "dict_churn": b"keepd[i % 7] = [i]",
    "array_churn": b"std.push(keepa, [i]) if std.len(keepa) > 9 then while std.len(keepa) > 0 do std.pop(keepa) end end",
    "shared_closures": b"let c = 0 let inc = function () c = c + 1 end inc() inc() let d = [inc, function () c end]",
    "static": b"let d = std.cwd() let e = std.env(\"HOME\") let n = std.substr(d, 0, 1)",
    "typecheck": b"let e = std.try_typecheck(i, \"string\")",
    "recursion": b"let f = nil f = function (n) if n > 0 then let l = [n] f(n - 1) else nil end end f(5)",
}


# Functions of the library, called with ever new or ever the same arguments; name -> (loop body, share of the iterations).
MORE = {
    "regex": (b"let x = std.regex(\"a+(b|c)*\" ++ std.to_string(i % 3))", 20),
    "regex_new": (b"let x = std.regex(\"x\" ++ std.to_string(i)) let m = x.match(\"zx\" ++ std.to_string(i)) let y = x.split(\"axbx1c\") let z = x.replace(\"axb\", \"q\")", 20),
    "regex_bad": (b"let x = std.regex(\"(\" ++ std.to_string(i))", 4),
    "hexes": (b"let x = std.hex.decode(std.hex.encode(\"abc\" ++ std.to_string(i))) let y = std.base64.decode(std.base64.encode(x)) let z = std.hex.decode(\"q\")", 2),
    "numbers": (b"let x = std.int(std.to_string(i)) let y = std.float(\"1.5\") + std.float(i) let z = std.bytes(std.to_string(i)) let b = std.to_string([i, @[ k: y ]])", 2),
    "strings2": (b"let t = std.trim(\"  x\" ++ std.to_string(i)) let u = std.substr(t, 0, 2) let c = std.contains(t, '1') for ch in std.iter(t) do let v = ch end", 2),
    "big_string": (b"let s = \"0123456789abcdef\" s = s ++ s ++ s ++ s s = s ++ s ++ s ++ s s = s ++ s ++ s ++ s let q = std.split(s, \"0\")", 20),
    "environ": (b"std.export(\"V\", std.to_string(i)) let x = std.env(\"V\")", 2),
    "directory": (b"std.cd(\".\") let x = std.cwd() let y = std.cd(\"no-such\")", 4),
    "random": (b"std.randseed(i) let x = std.rand() let y = std.randint(0, i)", 2),
    "json_errors": (b"let x = std.json.decode(\"[1, \" ++ std.to_string(i)) let y = std.catch(function () std.json.encode(std.len) end)", 2),
    "globs": (b"let x = std.glob(\"/nonexistent/*\" ++ std.to_string(i))", 10),
    "imports": (b"let x = std.catch(function () std.import(\"no-such-module.hsh\") end)", 10),
    "bound": (b"let x = std.bind([i], function (a) [self, a] end) let y = x(i)", 1),
    "iterators": (b"let it = std.iter([i, i]) it() let d = std.iter(@[ a: i ]) d() let s = std.iter(\"abc\") s() let r = std.range(0, i, 1) r()", 1),
    "has_error": (b"let x = std.has_error([i, @[ a: std.error(\"x\", i) ]]) let y = std.catch(function () std.assert(false) end)", 1),
    "growing_dict": (b"let d = @[] for q in std.range(0, 20, 1) do d[q] = [q] d[[q]] = q end", 10),
    "pops": (b"let a = [] for q in std.range(0, 20, 1) do std.push(a, [q]) end while not std.is_empty(a) do std.pop(a) end", 10),
    "native_panics": (b"let x = std.catch(function () std.len(i) end) let y = std.catch(function () std.push(i, i, i) end) let z = std.catch(function () std.range(1, 2, 0) end)", 1),
    "args": (b"let x = std.args() std.print(\"\") let t = std.type(x)", 1),
    "capture": (b"let x = ${ hv s Oabc Qdef } let y = ${ hv s x3 }", 60),
    "async": (b"let x = &{ hv s x0 } x.join() let y = std.catch(function () x.join() end)", 60),
    "plain": (b"{ hv s x0 | hv s x0 } { no-such-program ? }", 60),
    "here": (b"{ hv s T0 > /dev/null << \"$big\" } let z = ${ hv s T0 << \"$big\" }", 60),
    "command_panic": (b"let x = std.catch(function () ${ hv s x0 | hv s 7> x } end)", 60),
}


def peak(src, binary):
    """Peak resident size in KiB of the process, or None."""
    path = os.path.join(common.W["tmp"], "m.hsh")
    with open(path, "wb") as f: f.write(src)
    p = subprocess.Popen([binary, path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(common.BASE_ENV, PATH=os.path.dirname(common.W["hv"]) + ":/usr/bin:/bin", HV_LOG="/dev/null"), cwd=common.W["tmp"], start_new_session=True)
    common.LIVE.add(p.pid)
    out = b""; t0 = time.monotonic()
    try:
        import selectors
        os.set_blocking(p.stdout.fileno(), False)
        sel = selectors.DefaultSelector(); sel.register(p.stdout, selectors.EVENT_READ)
        while True:
            if not sel.select(5):
                if time.monotonic() - t0 > 120: p.kill(); p.wait(); return None, b"timeout"
                continue
            d = p.stdout.read(65536)
            if not d: break
            out += d
        _, st, ru = os.wait4(p.pid, 0)
        p.returncode = st
    finally:
        common.LIVE.discard(p.pid)
    if st != 0: return None, b"status %d: " % st + out[-300:]
    return ru.ru_maxrss, out


def growth(item):
    name, n = item
    if name in MORE: body, share = MORE[name]; n //= share
    else: body = LOOPS[name]
    def script(k): return (b"let big = \"0123456789abcdef\" for j in std.range(0, 10, 1) do big = big ++ big end\n" if name == "here" else b"") + b"let keepd = @[] let keepa = []\nfor i in std.range(0, %d, 1) do\n%s\nend\nstd.println(\"done\")\n" % (k, body)
    a, oa = peak(script(n), common.W["gc"])
    b, ob = peak(script(n * 5), common.W["gc"])
    if a is None or b is None:
        msg = (oa if a is None else ob)
        if msg == b"timeout": return {"ok": True, "inconclusive": "growth %s: watchdog" % name}
        return {"ok": False, "desc": "growth %s: %r" % (name, msg), "files": {"program.hsh": script(n)}}
    bad = b - a > max(8192, 0.35 * a)
    return {"ok": not bad, "evals": 2, "distinct": ["growth/" + name], "stats": {"growth_loops": 1, "iterations": n * 6},
            "desc": "the shell grows without bound: %d iterations of %r peak at %d KiB, %d at %d KiB" % (n, body.decode(), a, 5 * n, b), "files": {"program.hsh": script(n * 5)}}


def commands(seed):
    """Async handles, captures and here-texts while garbage is collected."""
    r = random.Random(seed)
    src = diff.HEAD + CHURN + (b"let hs = []\nfor i in std.range(0, 5, 1) do\nlet t = \"x\" ++ std.to_string(i)\nstd.push(hs, &{ hv s u%d L$t x$i })\nchurn(3)\nend\n"
        b"for h in std.iter(hs) do let r = h.join() churn(2) T(\"j\", if r == nil then 0 else r.context.status end) end\n"
        b"let c = ${ hv s Oabc ; hv s Qdef x3 } churn(5) T(\"c\", [c.context.stdout, c.context.stderr, c.context.error.status])\n"
        b"let big = \"0123456789\" for i in std.range(0, 12, 1) do big = big ++ big end\nlet d = ${ hv s T0 << $big } churn(2) T(\"d\", std.len(d.stdout))\n") % r.choice([0, 500, 3000])
    exp = b"".join(b"j i%d\n" % i for i in range(5)) + b"c [s616263,s646566,i3,]\nd i40961\n"
    out = []
    for b, p in ((common.W["asan"], r.choice([1, 3, 11])), (common.W["gc"], r.choice([1, 2]))):
        s = cmds.shot(src, binary=b, env={"ASAN_OPTIONS": ASAN, "HUSH_VERIF_GC": str(p)}, timeout=120)
        if s.r.timeout: return {"ok": True, "inconclusive": "watchdog"}
        if s.r.out != exp or s.r.status != 0 or b"Sanitizer" in s.r.err:
            base = cmds.shot(src)
            if base.r.out == s.r.out and b"Sanitizer" not in s.r.err: continue      # not a matter of memory
            return {"ok": False, "desc": "commands under collection: %s; status %s, stderr %s" % (diff.first_diff(exp, s.r.out), s.r.status, s.r.err[:1000]), "files": {"program.hsh": src, "stderr.txt": s.r.err}}
    return {"ok": True, "evals": 2, "distinct": [src], "stats": {"command_runs": 2}}


def run(c):
    c.rule = ("generated and crafted programs executed under AddressSanitizer and with garbage collections forced at every n-th evaluation, compared with the plain execution; values held in one particular way only "
              "(captures, keys, errors, iterators, bound functions, unfinished evaluations) while garbage is made; loops that keep nothing, whose peak memory must not grow with the iterations; distinct by program")
    asan = common.build("asan"); gc = common.build("gc")
    extra = {"asan": asan, "gc": gc, "hv": cmds.tool()}
    c.map(holders, ["c18h/%d/%d" % (c.seed, i) for i in range(c.n(900, 20000))], extra=extra, cap=c.cap(80, 1200), chunk=4)
    if c.viol: return
    c.map(program, [("c18/%d/%d" % (c.seed, i), i % 30 - 16) for i in range(c.n(900, 20000))], extra=extra, cap=c.cap(80, 1200), chunk=4)
    if c.viol: return
    c.map(commands, ["c18c/%d/%d" % (c.seed, i) for i in range(c.n(24, 200))], extra=extra, cap=60)
    if c.viol: return
    c.map(growth, [(n, c.n(20000, 100000)) for n in [*MORE, *LOOPS]], extra=extra, cap=c.cap(200, 1500))
