"""C04: static errors reject the program before any effect, and only they do."""
import os, random
from engine import common, diff, gen, nest, printer
from engine.lang import *

G = gen.GLOBALS


# --------------------------------------------------------------- injection of one semantic error
def sites(block, infn=False, inloop=False, depth=0, out=None):
    """All (statement list, in function, in loop, depth) of a program."""
    if out is None: out = []
    out.append((block, infn, inloop, depth))
    def ex(e, infn, inloop, d):
        if isinstance(e, N):
            if e.k == "fn": sites(e.f[1], True, False, d + 1, out); return
            if e.k == "if":
                ex(e.f[0], infn, inloop, d); sites(e.f[1], infn, inloop, d + 1, out); sites(e.f[2], infn, inloop, d + 1, out); return
            for x in e.f: ex(x, infn, inloop, d)
        elif isinstance(e, (list, tuple)):
            for x in e: ex(x, infn, inloop, d)
    for s in block:
        if s.k == "while": ex(s.f[0], infn, inloop, depth); sites(s.f[1], infn, True, depth + 1, out)
        elif s.k == "for": ex(s.f[1], infn, inloop, depth); sites(s.f[2], infn, True, depth + 1, out)
        else: ex(list(s.f), infn, inloop, depth)
    return out


def exprs_in(x, out):
    if isinstance(x, N):
        if x.k not in ("let", "fundef", "assign", "ret", "break", "while", "for", "expr"): out.append(x)
        for y in x.f: exprs_in(y, out)
    elif isinstance(x, (list, tuple)):
        for y in x: exprs_in(y, out)


KINDS = ["undeclared", "undeclared_assign", "undeclared_cmd", "use_before", "use_after_block", "own_init", "duplicate", "dup_param", "dup_loop", "dup_fn", "dupkey",
         "assign_call", "assign_lit", "assign_paren", "return", "self", "try", "break", "break_in_fn", "builtin_cap", "builtin_async", "builtin_pipe", "builtin_pipe2", "builtin_redir"]
BUILTINS = ["cd", "alias", "exec", "exec0", "spawn0"]


class Raw(Exception): pass


def inject(block, kind, rng):
    """Insert one static error somewhere; -> True when done. Uses N('raw') for text."""
    ss = sites(block)
    def where(pred=lambda s: True, tail=True):
        c = [s for s in ss if pred(s)]
        if not c: raise Raw()
        lst, infn, inloop, d = rng.choice(c)
        # never after a return/break (they end a block) -- insert before it
        hi = len(lst)
        if lst and lst[-1].k in ("ret", "break"): hi -= 1
        return lst, rng.randint(0, hi)
    def put(stmts, pred=lambda s: True):
        lst, i = where(pred)
        lst[i:i] = stmts
    top = lambda s: not s[1]
    if kind == "undeclared":
        k = rng.random()
        u = var("undeclared_name")
        if k < 0.4: put([es(rng.choice([u, call(u), bin_("+", lit(1), u), N("arr", [u]), N("dict", [("k", u)]), un("not", u), idx(N("arr", [lit(1)]), u), fn([], [es(u)]), if_(lit(False), [es(u)]), if_(u, []), scall("len", u)]))])
        elif k < 0.6: put([let("fresh_q", u)])
        elif k < 0.8: put([while_(lit(False), [es(u)])])
        else: put([for_("fresh_i", u, [])])
    elif kind == "undeclared_assign": put([assign(rng.choice([var("undeclared_name"), dot(var("undeclared_name"), "x"), idx(var("undeclared_name"), lit(0))]), lit(1))])
    elif kind == "undeclared_cmd": put([es(N("raw", rng.choice(["{ true $undeclared_name }", "${ true a${undeclared_name}b }", "&{ true \"x $undeclared_name\" }", "{ $undeclared_name }", "{ true; true; A=$undeclared_name true }", "{ true > $undeclared_name }", "{ true | true $undeclared_name }"])))])
    elif kind == "use_before": put([es(var("late_name")), let("late_name", lit(1))])
    elif kind == "use_after_block": put([es(rng.choice([if_(lit(True), [let("late_name", lit(1))]), call(N("paren", fn(["late_name"], [])), lit(1)), fn([], [let("late_name", lit(1))])])), es(N("raw", "late_name"))] if rng.random() < 0.7 else
                                          [for_("late_name", scall("iter", N("arr", [])), []), trace("x", var("late_name"))])
    elif kind == "own_init": put([es(fn([], [es(var("late_name"))])), let("late_name", lit(3))])
    elif kind == "duplicate":
        put([let("twice", lit(1)), let("twice", lit(2))] if rng.random() < 0.5 else [let("twice", lit(1)), trace("a", lit(1)), N("fundef", "twice", fn([], []))])
    elif kind == "dup_param": put([es(fn(["p", "q", "p"], []))])
    elif kind == "dup_loop": put([es(fn(["p"], [let("p", lit(1))]))] if rng.random() < 0.5 else [for_("twice", scall("iter", N("arr", [])), [let("twice", lit(1))])])
    elif kind == "dup_fn": put([N("fundef", "twice", fn([], [])), N("fundef", "twice", fn([], []))])
    elif kind == "dupkey": put([es(rng.choice([N("dict", [("k", lit(1)), ("j", lit(2)), ("k", lit(1))]), N("dict", [("a", N("dict", [("k", lit(1)), ("k", lit(2))]))]), N("dict", [("k", N("dict", [("k", lit(1))])), ("k", lit(0))])]))])
    elif kind == "assign_call": put([assign(scall("len", lit(b"x")), lit(1))])
    elif kind == "assign_lit": put([assign(rng.choice([lit(1), lit(b"s"), lit(True)]), lit(1))])
    elif kind == "assign_paren": put([es(N("raw", rng.choice(["if true then 1 end = 2", "@[a: 1] = 2", "1 + 1 = 2", "function () end = 3", "not true = false",
        "{ true } = 1", "${ true } = 1", "&{ true } = 1", "[1, 2] = 3", "nil = 1", "std.len([]) = 2", "std.args()[0]() = 2", "-1 = 2", "1.5 = 2", "'c' = 2", "true and false = true"] +
        ["let %%s = function (a, b) %s end" % t for t in ("a? = 2", "a[0]? = 2", "a.x? = 2", "a() = 1", "a.x() = 1", "a[b]() = 1", "-a = 1", "not a = 1", "a + b = 1", "a == b = 1", "self = 1", "a? .x = a? = 2", "return = 1",
                                                    "if a then b end = 2", "{ echo $a } = a", "[a] = b", "@[ x: a ] = b", "function () a end = b", "b? = a?")]).replace("%s", "zz%d" % rng.randrange(10 ** 6))))])
    elif kind == "return" and rng.random() < 0.5:
        # a bare one, with statements after it too: one or several, of the whole program
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            lst = block if rng.random() < 0.7 else where(top)[0]
            lst.insert(rng.randint(0, len(lst)), N("raw", rng.choice(["return", "return 1", "return nil", "return if true then 1 end", "return [1]", "return\n@[ a: 1 ]", "return (function () return 1 end)()"])))
    elif kind == "return": put([es(if_(lit(rng.random() < 0.5), [ret(rng.choice([None, lit(1)]))]))], top)
    elif kind == "self": put([es(rng.choice([N("self"), dot(N("self"), "x"), if_(lit(False), [es(N("self"))])]))], top)
    elif kind == "try": put([es(N("try", rng.choice([scall("len", lit(b"")), N("paren", lit(1))])))], top)
    elif kind == "break": put([es(if_(lit(rng.random() < 0.5), [brk()]))], lambda s: not s[2])
    elif kind == "break_in_fn": put([while_(lit(False), [es(fn([], [es(if_(lit(True), [brk()]))]))])])
    elif kind.startswith("builtin"):
        b = rng.choice(BUILTINS)
        t = {"builtin_cap": "${ %s /tmp x }", "builtin_async": "&{ %s /tmp x }", "builtin_pipe": "{ %s /tmp | cat }", "builtin_pipe2": "{ true | %s /tmp }", "builtin_redir": "{ %s /tmp > /dev/null }"}[kind]
        put([es(N("raw", t % b))])
    else: raise AssertionError(kind)


def run_both(src, expect_err, what, rng, files_extra=None):
    """-> None or description"""
    r = common.hush(b'std.println("EFFECT")\n' + src if expect_err else src)
    full = b'std.println("EFFECT")\n' + src if expect_err else src
    c = common.hush(full, flags=("--check",), name="c.hsh")
    if r.timeout or c.timeout:
        if r.stuck or c.stuck: return "hangs", full, r, c
        return "?", full, r, c
    if expect_err:
        if r.status != 2: return "%s: not rejected (status %s)" % (what, r.status), full, r, c
        if r.out: return "%s: rejected, but it had effects: stdout %r" % (what, r.out[:200]), full, r, c
        if not r.err.strip(): return "%s: rejected without a report" % what, full, r, c
        if c.status != 2 or c.out or not c.err.strip(): return "%s: --check gives another verdict (status %s)" % (what, c.status), full, r, c
    else:
        if r.status == 2 or (b"std.exit(0)\n" == src[:12] and r.status != 0): return "%s: a valid program is rejected: %s" % (what, r.err[:300].decode("utf-8", "replace")), full, r, c
        if c.status != 0 or c.out or c.err: return "%s: --check rejects or runs a valid program (status %s): %r %r" % (what, c.status, c.out[:100], c.err[:200]), full, r, c
    return None, full, r, c


def result(bad, full, r, c, key, stats):
    if bad == "?": return {"ok": True, "inconclusive": "watchdog"}
    res = {"ok": True, "evals": 2, "distinct": [key], "stats": stats}
    if bad: res.update(ok=False, desc=bad, files={"program.hsh": full, "run.txt": r.brief(), "check.txt": c.brief()})
    return res


def merge(rs):
    agg = {"ok": True, "evals": 0, "distinct": [], "stats": {}}
    for r in rs:
        agg["evals"] += r.get("evals", 0)
        agg["distinct"] += r.get("distinct", [])
        for k, v in r.get("stats", {}).items(): agg["stats"][k] = agg["stats"].get(k, 0) + v
        if r.get("inconclusive"): agg["inconclusive"] = r["inconclusive"]
        if r.get("sample"): agg["sample"] = r["sample"]
        if not r["ok"]: agg.update(ok=False, desc=r["desc"], files=r["files"]); break
    return agg


def semantic(item):
    seed, kinds = item
    out = []
    for j, kind in enumerate(kinds):
        rng = random.Random(seed + str(j))
        b = clone(gen.Gen(rng, rng.choice(["mix", "flow", "scope"]), rng.choice([5, 15, 40])).program())
        try: inject(b, kind, rng)
        except Raw: continue
        try: src = printer.source(b, rng, rng.choice(["pretty", "pretty", "tight", "wild"]))
        except AssertionError: continue
        res = run_both(diff.HEAD + src, True, "error of kind %s" % kind, rng)
        out.append(result(*res, "%s %s" % (kind, seed + str(j)), {"rejected_" + kind: 1}))
        if not out[-1]["ok"]: break
    return merge(out)


def syntax(seed):
    """Unbalanced or misplaced tokens: always a syntax error."""
    out = []
    for j in range(12):
        rng = random.Random(seed + str(j))
        b = gen.Gen(rng, rng.choice(["mix", "flow", "scope"]), rng.choice([5, 15, 30])).program()
        p = printer.Printer(rng, trailing=0.1); p.block(b)
        toks = list(p.toks)
        k = rng.random()
        if k < 0.4:
            c = [i for i, t in enumerate(toks) if t.t in (b"end", b")", b"]", b"then", b"do", b"in", b"(", b"@[")]
            if not c: continue
            i = rng.choice(c)
            if toks[i].t == b"(" or toks[i].t == b"@[":
                what = "missing " + toks[i].t.decode()
            else: what = "missing " + toks[i].t.decode()
            del toks[i]
        elif k < 0.8:
            t = rng.choice([b"end", b")", b"]", b"then", b"do", b"in", b"(", b"@[", b"elseif", b"while", b"for", b"}"])
            if t == b"(": t = b"( ("; 
            i = rng.randint(0, len(toks)); toks.insert(i, printer.Tok(t)); what = "extra " + t.decode()
        elif k < 0.9:
            i = rng.randint(1, len(toks) - 1) if len(toks) > 1 else 0
            # an operator with a missing operand
            toks.insert(i, printer.Tok(rng.choice([b"* /", b"== ==", b"and or", b"+ *", b"= =", b"++ ++", b". .", b", ,", b": :"]))); what = "operators without operands"
        else:
            i = rng.randint(0, len(toks))
            toks.insert(i, printer.Tok(rng.choice([b"!", b"& ", b"`", b"^", b"| ", b"~ ", b"$ ", b"@ ", b"\x01", b"\xc3\xa9", b";"]))); what = "illegal character"
        src = printer.join(toks, rng, "pretty")
        res = run_both(diff.HEAD + src, True, "syntax error (%s)" % what, rng)
        out.append(result(*res, "syn %s" % (seed + str(j)), {"rejected_syntax": 1}))
        if not out[-1]["ok"]: break
    return merge(out)


# --------------------------------------------------------------- random scoping, verdict by the model's resolver
def scoping(seed):
    out = []
    for j in range(15):
        rng = random.Random(seed + str(j))
        names = ["a", "b", "c", "d", "e"]
        perr = rng.choice([0.0, 0.02, 0.1])
        def pick(vis):
            if rng.random() < perr or not vis: return rng.choice(names) if rng.random() < perr * 5 or vis == set() and rng.random() < 0.1 else (rng.choice(sorted(vis)) if vis else None)
            return rng.choice(sorted(vis))
        def expr(vis, d, infn, inloop=False):
            k = rng.random()
            n = pick(vis)
            if (k < 0.4 or d > 4) and n: return var(n)
            if k < 0.5 or d > 4: return lit(rng.randint(0, 9))
            if k < 0.6: return N("arr", [expr(vis, d + 1, infn, inloop) for _ in range(rng.randint(0, 3))])
            if k < 0.7: return N("dict", [(rng.choice(names) if rng.random() < perr else "k%d" % i, expr(vis, d + 1, infn, inloop)) for i in range(rng.randint(0, 3))])
            if k < 0.8:
                ps = [rng.choice(names) for _ in range(rng.randint(0, 2))] if rng.random() < perr else rng.sample(names, rng.randint(0, 3))
                return fn(ps, block(vis | set(ps), set(ps), d + 1, True, False))
            if k < 0.85: return if_(lit(False), block(set(vis), set(), d + 1, infn, inloop), block(set(vis), set(), d + 1, infn, inloop))
            if k < 0.9: return N("self") if infn or rng.random() < perr else lit(None)
            if k < 0.95: return N("try", N("paren", lit(1))) if infn or rng.random() < perr else lit(None)
            return bin_("==", expr(vis, d + 1, infn, inloop), expr(vis, d + 1, infn, inloop))
        def block(vis, here, d, infn, inloop):
            vis = set(vis); here = set(here)
            b = []
            for _ in range(rng.randint(0, 5) if d else rng.randint(4, 9)):
                k = rng.random()
                if k < 0.3:
                    n = rng.choice(names)
                    if n in here and rng.random() >= perr: continue
                    e = expr(vis | {n} if rng.random() < 0.3 else vis, d + 1, infn, inloop)
                    b.append(let(n, e)); here.add(n); vis.add(n)
                elif k < 0.4:
                    n = rng.choice(names)
                    if n in here and rng.random() >= perr: continue
                    ps = rng.sample(names, rng.randint(0, 2))
                    here.add(n); vis.add(n)
                    b.append(N("fundef", n, fn(ps, block(vis | set(ps), set(ps), d + 1, True, False)))) if d < 5 else b.append(let(n, lit(1)))
                elif k < 0.55:
                    n = pick(vis)
                    if n: b.append(assign(rng.choice([var(n), idx(var(n), lit(0)), dot(var(n), "f")]), expr(vis, d + 1, infn, inloop)))
                elif k < 0.65 and d < 5: b.append(while_(lit(False) if rng.random() < 0.5 else expr(vis, d + 1, infn, inloop or rng.random() < perr), block(vis, set(), d + 1, infn, True)))
                elif k < 0.75 and d < 5:
                    n = rng.choice(names)
                    b.append(for_(n, expr(vis, d + 1, infn, inloop or rng.random() < perr), block(vis | {n}, {n}, d + 1, infn, True)))
                elif k < 0.8:
                    if inloop or rng.random() < perr: b.append(es(if_(lit(True), [brk()])))
                elif k < 0.85:
                    if infn or rng.random() < perr: b.append(es(if_(lit(True), [ret(None)])))
                else: b.append(es(expr(vis, d + 1, infn, inloop)))
            return b
        b = clone(block({"std"}, {"std"}, 0, False, False))
        errs = resolve(b, ("std",))
        try: src = printer.source(b, rng, rng.choice(["pretty", "tight", "wild"]))
        except AssertionError: continue
        if errs:
            res = run_both(src, True, "program with %d static errors (%s)" % (len(errs), ", ".join("%s %s" % e[:2] for e in errs[:4])), rng)
        else: res = run_both(b"std.exit(0)\nwhile false do end\n" + src, False, "program without static errors", rng)
        out.append(result(*res, src, {"resolver_rejects" if errs else "resolver_accepts": 1}))
        if not out[-1]["ok"]: break
    return merge(out)


def flat(seed):
    """Statements that do not depend on each other, one of them in error: whatever the parser makes of the rest, nothing may run."""
    out = []
    for j in range(12):
        r = random.Random(seed + str(j))
        good = lambda i: r.choice(["std.println(%d)", "let v%d = 1", "{ echo %d }", "if true then std.println(%d) end", "while false do %d end", "function f%d() return 1 end", "let w%d = function () std.println(1) return 2 end",
                                   "for x%d in std.range(0, 1, 1) do std.println(1) end", "std.println(@[ a: %d ])", "%d", "${ echo %d }", "let z%d = [1, 2]"]) % i
        kind = r.choice(["return", "return", "break", "self", "try", "name", "assign", "twice", "key", "builtin"])
        bad = {"return": ["return", "return 1", "return nil", "return if true then 1 end", "return (function () return 1 end)()", "if false then return end", "if true then 1 else return 1 end", "while false do return end", "for q in std.range(0, 1, 1) do return 1 end"],
               "break": ["break", "if true then break end", "if false then 1 else break end"],
               "self": ["self", "std.println(self)", "let s = self", "self.x = 1"], "try": ["std.len(1)?", "let s = 1?", "std.println([]?)"],
               "name": ["nobody", "let s = nobody", "nobody()", "{ echo $nobody }", "function ff() nobody end"], "assign": ["nobody = 1", "1 = 2", "std.len() = 1", "[] = 1"],
               "twice": ["let s = 1 let s = 2", "function s() 1 end let s = 2", "let s = function (a, a) 1 end"], "key": ["let s = @[ a: 1, a: 2 ]"],
               "builtin": ["${ cd / }", "&{ cd / }", "{ cd / | true }", "{ true; cd / > x }"]}[kind]
        n = r.choice([0, 1, 2, 4, 8])
        lines = [good(i) for i in range(n)]
        for _ in range(r.choice([1, 1, 1, 2])): lines.insert(r.randint(0, len(lines)), r.choice(bad))
        src = r.choice(["\n", "\n", "\n\n", " # c\n"]).join(lines).encode() + r.choice([b"\n", b"", b"\n\n"])
        res = run_both(src, True, "%s among independent statements" % kind, r)
        out.append(result(*res, src, {"flat_" + kind: 1}))
        if not out[-1]["ok"]: break
    return merge(out)


# --------------------------------------------------------------- one construct in every nesting
class Plant(nest.Nest):
    """The core is put in place whether it is legal there or not."""
    def esc(self, esc, ctx):
        r = self.r
        e = {"break": lambda: [brk()], "return": lambda: [ret(lit(1))], "returnnil": lambda: [ret(None)],
             "try": lambda: [es(N("try", scall("len", lit(b""))))], "self": lambda: [es(N("self"))],
             "undeclared": lambda: [es(var("nobody"))], "assign": lambda: [assign(var("nobody"), lit(1))],
             "shadow": lambda: [let("std2", var("std")), let("std2x", var("std2"))],
             "dup": lambda: [let("dd", lit(1)), let("dd", lit(1))],
             "dupkey": lambda: [es(N("dict", [("k", lit(1)), ("k", lit(1))]))]}[esc]()
        if esc in ("break", "return", "returnnil"):
            return r.choice([[es(if_(lit(True), e))], e, [es(if_(lit(False), [], e))], [es(if_(lit(False), [], [es(if_(lit(True), e, []))]))]])
        return e


CORES = ["break"] * 4 + ["return", "returnnil", "try", "self", "undeclared", "assign", "shadow", "dup", "dupkey"]
LEVELS = nest.LOOPS + nest.FUNS + nest.EXPRS + nest.BLOCKS + ["x_while", "x_for", "while", "for_iter", "iife"] * 2


def nests(seed):
    out = []
    for j in range(16):
        rng = random.Random(seed + str(j))
        core = rng.choice(CORES)
        levels = [rng.choice(LEVELS) for _ in range(rng.choice([1, 2, 2, 3, 3, 4]))]
        b = clone(Plant(rng).program(levels, core))
        errs = resolve(b, G)
        try: src = printer.source(b, rng, rng.choice(["pretty", "tight", "wild"]))
        except AssertionError: continue
        what = "%s in %s" % (core, " > ".join(levels))
        if errs: res = run_both(diff.HEAD + src, True, what, rng)
        else: res = run_both(b"std.exit(0)\nwhile false do end\n" + diff.HEAD + src, False, what, rng)
        out.append(result(*res, src, {("nest_rejects_" if errs else "nest_accepts_") + core: 1}))
        if not out[-1]["ok"]: break
    return merge(out)


# --------------------------------------------------------------- command blocks, verdict by construction
def blocks(seed):
    out = []
    for j in range(16):
        r = random.Random(seed + str(j))
        errs = []
        perr = r.choice([0, 0, 0.05, 0.3])
        pb = r.choice([0, 0.1, 0.3])
        def ref():
            if r.random() < perr: errs.append("undeclared"); return r.choice(["$nobody", "${nobody}"])
            return r.choice(["$a", "${b}", "$std", "${a}"])
        def w():
            s = ""
            for _ in range(r.choice([1, 1, 2, 3])):
                x = r.choice(["x", "k1", "'q r'", '"z"', "*", "\\;", "-", lambda: ref() + "-", lambda: '"%s w"' % ref(), lambda: "p%s/" % ref()])
                s += x() if callable(x) else x
            return s
        kind = r.choice(["{", "{", "{", "${", "&{"])
        cmds = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            n = r.choice([1, 1, 1, 2, 3, 4])
            stages = []
            for i in range(n):
                bi = r.random() < pb
                env = ["%s=%s" % (r.choice(["A", "B_1", "path"]), w()) for _ in range(r.choice([0, 0, 0, 1, 2]))]
                if bi:
                    nm = r.choice(BUILTINS)
                    k = r.randint(1, len(nm) - 1)
                    prog = r.choice([nm, nm, '"%s"' % nm, "'%s'" % nm, "'%s'%s" % (nm[:k], nm[k:]), '%s"%s"' % (nm[:k], nm[k:])])
                else: prog = r.choice(["true", "/bin/true", "cd2", "xcd", "'cd '", "CD", "exec1", "spawn", "aliases", "c*d", lambda: ref(), lambda: "cd" + ref(), lambda: ref() + "-cd", lambda: '"%s"' % ref()])
                if callable(prog): prog = prog()
                args = [w() if r.random() < 0.8 else r.choice(BUILTINS) for _ in range(r.randint(0, 3))]
                red = []
                for _ in range(r.choice([0, 0, 0, 1, 2])):
                    x = r.choice(["2>1", "1>2", ">", ">>", "2>", "2>>", "<", "<<", "1>"])
                    if not x[-1].isdigit():
                        t = r.choice(["out", "cd", "'o o'", lambda: ref(), lambda: '"f%s"' % ref()])
                        x += r.choice(["", " "]) + (t() if callable(t) else t)
                    red.append(x)
                q = r.choice(["", "", "", " ?"])
                stages.append(" ".join(env + [prog] + args + red) + q)
                if bi and (kind != "{" or n > 1 or red): errs.append("builtin")
            cmds.append(" | ".join(stages))
        text = r.choice(["; ", ";\n\t", " ;"]).join(cmds)
        blk = "%s %s%s }" % (kind, text, r.choice(["", ";"]))
        lead = r.choice(["", "let r = ", "if false then\n", "function f(a)\n", "while false do "])
        tail = {"": "", "l": "", "i": "\nend", "f": "\nend", "w": " end"}[lead[:1]]
        src = ("let a = 1\nlet b = 'x'\n" + lead + blk + tail + "\n").encode()
        what = "command block with " + (", ".join(sorted(set(errs))) or "nothing wrong")
        if errs: res = run_both(src, True, what, r)
        else: res = run_both(b"std.exit(0)\nwhile false do end\n" + src, False, what, r)
        st = {("commands_rejected_" if errs else "commands_accepted_") + {"{": "sync", "${": "capture", "&{": "async"}[kind]: 1}
        out.append(result(*res, src, st))
        if not out[-1]["ok"]: break
    return merge(out)


def valid(seed):
    """Valid programs of all sorts pass --check without running, commands included."""
    out = []
    for j in range(8):
        rng = random.Random(seed + str(j))
        b = gen.Gen(rng, rng.choice(["mix", "flow", "scope", "panic"]), rng.choice([10, 30])).program()
        try:
            if resolve(b, G): continue
        except Budget: continue
        src = diff.HEAD + printer.source(b, rng, rng.choice(["pretty", "tight", "wild"]))
        src += rng.choice([b"\n{ echo effect > effect.txt }\n", b"\nlet cc = ${ touch effect.txt }\n", b"\nlet cc = &{ touch effect.txt }\ncc.join()\n", b"\nstd.exit(3)\n",
                           b"\nif true then { cd / ; touch effect.txt } end\n", b"\n{ X=1 Y=2 touch effect.txt 2>1 ? ; true | false | true ; }\n", b""])
        d = common.scratch()
        c = common.hush(src, flags=("--check",), cwd=d)
        bad = None
        if c.timeout and not c.stuck: bad = "?"
        elif c.status != 0 or c.out or c.err: bad = "--check of a valid program: status %s, %r %r" % (c.status, c.out[:200], c.err[:300])
        elif os.listdir(d) != ["t.hsh"]: bad = "--check executed the program: %r" % os.listdir(d)
        out.append(result(bad, src, c, c, src, {"valid_checked": 1}))
        if not out[-1]["ok"]: break
    return merge(out)


def large(item):
    """Size alone is no error."""
    seed, k = item
    rng = random.Random(seed)
    n = rng.choice([500, 3000])
    src = {0: b"\n".join(b"let v%d = %d" % (i, i) for i in range(n)),
           1: b"function f(" + b", ".join(b"p%d" % i for i in range(n)) + b") p0 end",
           2: b"let d = @[" + b", ".join(b"k%d: %d" % (i, i) for i in range(n)) + b"]",
           3: b"let a = [" + b", ".join(b"%d" % i for i in range(n)) + b"]",
           4: b"let x = 0\nif x == -1 then 0\n" + b"".join(b"elseif x == %d then %d\n" % (i, i) for i in range(min(n, 400))) + b"end",
           5: b"let s = \"" + b"a" * 100000 + b"\"",
           6: b"{ true " + b" ".join(b"a%d" % i for i in range(n)) + b" }",
           7: b"{ " + b"; ".join(b"true %d" % i for i in range(min(n, 500))) + b" }",
           8: b"let x = 1 " + b" + 1" * min(n, 1000)}[k] + b"\n"
    res = run_both(src, False, "large valid program", rng)
    return result(*res, "large %d %d" % (k, n), {"large": 1})


def crowded(seed):
    """One name too many among very many, at any two places, or the same text with another name."""
    rng = random.Random(seed)
    n = rng.choice([20, 40, 70, 130, 260, 300, 600])
    i, j = sorted(rng.sample(range(n), 2))
    if rng.random() < 0.3: i = 0
    if rng.random() < 0.3: j = n - 1
    dup = rng.random() < 0.7
    names = [b"n%d" % x for x in range(n)]
    if dup: names[j] = names[i]
    k = rng.randrange(9)
    if k == 4: names[rng.randrange(n)] = b"nil"     # (a keyword) always an error
    body = {0: lambda: b"\n".join(b"let %s = 1" % x for x in names),
            1: lambda: b"let f = function (" + b", ".join(names) + b") 1 end",
            2: lambda: b"let d = @[" + b", ".join(b"%s: 1" % x for x in names) + b"]",
            3: lambda: b"function f()\n" + b"\n".join(b"let %s = 1" % x for x in names) + b"\nend",
            4: lambda: b"let d = @[" + b", ".join(b"%s: 1" % x for x in names) + b"]",
            5: lambda: b"\n".join(b"function %s() 1 end" % x for x in names),
            6: lambda: b"do_it = 1" if dup else b"\n".join(b"let %s = %s" % (x, b"0" if y == 0 else names[y - 1]) for y, x in enumerate(names)),
            7: lambda: b"\n".join(b"let %s = 1" % x for x in names if x != names[i]) + b"\nstd.println(%s)" % names[i] if dup else b"\n".join(b"let %s = 1" % x for x in names) + b"\nlet z = [" + b", ".join(names) + b"]",
            8: lambda: b"function f(" + b", ".join(names[:n // 2]) + b")\n" + b"\n".join(b"let %s = 1" % x for x in names[n // 2:]) + b"\nend"}[k]()
    full, err = body + b"\n", dup or k == 4
    res = run_both(full, err, "a name used twice (or undeclared) among %d" % n if err else "%d different names" % n, rng)
    return result(*res, "crowded %d %d %d %d" % (k, n, i, j), {"crowded_invalid" if err else "crowded_valid": 1})


def run(c):
    c.rule = ("generated valid programs, the same with exactly one injected semantic or syntax error anywhere (dead code included), and random scoping programs "
              "whose verdict is computed by an independent resolver; each is run and --check'ed while stdout, status and the scratch directory are watched; distinct by text")
    ks = KINDS
    items = []
    for i in range(c.n(110, 1500)):
        r = c.rng("k", i)
        items.append(("sem/%d/%d/" % (c.seed, i), [ks[(i + j * 7) % len(ks)] for j in range(12)]))
    c.map(semantic, items, cap=c.cap(80, 900))
    if c.viol: return
    c.map(syntax, ["syn/%d/%d/" % (c.seed, i) for i in range(c.n(80, 1200))], cap=c.cap(60, 900))
    if c.viol: return
    c.map(scoping, ["scp/%d/%d/" % (c.seed, i) for i in range(c.n(250, 4000))], cap=c.cap(90, 1200))
    if c.viol: return
    c.map(nests, ["nst/%d/%d/" % (c.seed, i) for i in range(c.n(150, 3000))], cap=c.cap(90, 900))
    if c.viol: return
    c.map(flat, ["flt/%d/%d/" % (c.seed, i) for i in range(c.n(120, 2500))], cap=c.cap(60, 600))
    if c.viol: return
    c.map(blocks, ["blk/%d/%d/" % (c.seed, i) for i in range(c.n(120, 2500))], cap=c.cap(90, 900))
    if c.viol: return
    c.map(valid, ["val/%d/%d/" % (c.seed, i) for i in range(c.n(100, 1500))], cap=c.cap(60, 600))
    if c.viol: return
    c.map(large, [("lrg/%d/%d" % (c.seed, i), i % 9) for i in range(c.n(18, 90))], cap=c.cap(60, 300))
    if c.viol: return
    c.map(crowded, ["crd/%d/%d/" % (c.seed, i) for i in range(c.n(30, 900))], cap=c.cap(60, 300))
