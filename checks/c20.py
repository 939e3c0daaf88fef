"""C20: any input text is handled, never crashes the shell."""
import os, random, re, shutil, glob
from engine import common, cmds, diff, gen, printer
from engine.lang import *
from .c12 import Blk, confirm

TOKENS = [b"let", b"if", b"then", b"else", b"elseif", b"end", b"for", b"in", b"do", b"while", b"function", b"return", b"break", b"self", b"true", b"false", b"nil", b"and", b"or", b"not",
          b"+", b"-", b"*", b"/", b"%", b"++", b"==", b"!=", b"<", b"<=", b">", b">=", b"=", b"(", b")", b"[", b"]", b"@[", b"{", b"}", b"${", b"&{", b",", b":", b".", b"?", b";", b"|", b"$", b"${x}", b"$x", b"~/", b">>", b"<<", b"2>1", b"2>",
          b"'a'", b"'\\n'", b"'", b"\"", b"\"s\"", b"\"\\x\"", b"\"\\\"", b"\\", b"\\\n", b"#", b"# c\n", b"1", b"0", b"9223372036854775807", b"9223372036854775808", b"1.5", b"1.", b".5", b"1e5", b"1.0e5", b"1.0e", b"1.0e99999", b"1.5e-3", b"00", b"1_000",
          b"x", b"std", b"x@closed", b"_", b"\xff", b"\x00", b"\xc3\xa9", b"\xef\xbb\xbf", b"\r\n", b"\n", b"\t", b" ", b"\x0b", b"cd", b"exec", b"alias", b"spawn0", b"@", b"!", b"&", b"^", b"`", b"...", b"=>", b"==="]

SNIPPETS = [b"let x = 1\n", b"{ a b 'c d' \"e $x\" > f 2>1 | g << \"h\" ? ; i=j k }\n", b"let y = ${ cmd $x ${x} ~/p *.c a%b }\n", b"let z = &{ sleep 1; ls }\nz.join()\n", b"function f (a, b) a + b end\n", b"let d = @[ a: 1, b: [1, 2.5, 'c', nil], ]\n",
            b"for i in std.range(0, 3, 1) do if i == 1 then break else std.println(i) end end\n", b"while false do end\n", b"let g = function () self.x? end\n", b"d.a = 2 d[\"b\"] = f(1, 2)\n", b"let s = \"a\\n\\t\\0\\\\\\\"\\'\"\n", b"# comment\n", b"return not x and -1 < 2 or true\n",
            b"let e = if x == 1 then \"a\" elseif x == 2 then \"b\" else \"c\" end\n", b"{ cd /tmp }\n", b"{ exec0 a b c }\n"]

_repo = None
def corpus():
    """The scripts of the repository, when it has any, as further seeds."""
    global _repo
    if _repo is None:
        _repo = []
        for root in ("src", "examples", "docs"):
            for p in sorted(glob.glob(os.path.join(common.REPO, root, "**", "*.hsh"), recursive=True)):
                try:
                    with open(p, "rb") as f: b = f.read()
                    if len(b) < 20000: _repo.append(b)
                except OSError: pass
    return _repo


def seed_text(r):
    k = r.random()
    if k < 0.3:
        b = gen.Gen(random.Random(r.random()), r.choice(["mix", "scope", "flow", "panic"]), r.choice([5, 15, 30])).program()
        return printer.source(b, random.Random(r.random()), r.choice(["pretty", "dense", "wild"]))
    if k < 0.45:
        s = bytearray()
        Blk(random.Random(r.random()), b"t").emit(s, r.choice(["plain", "capture", "async"])); return bytes(s)
    if k < 0.6 and corpus(): return r.choice(corpus())
    if k < 0.85: return b"".join(r.choice(SNIPPETS) for _ in range(r.randint(1, 8)))
    if k < 0.97: return b" ".join(r.choice(TOKENS) for _ in range(r.choice([1, 2, 3, 5, 10, 30])))
    return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 10, 100, 1000])))


def mutate(r, t):
    t = bytearray(t)
    for _ in range(r.choice([0, 1, 1, 2, 4, 16])):
        i = r.randrange(len(t) + 1); k = r.randrange(11)
        if k == 0 and t: del t[i:i + r.choice([1, 1, 2, 5, 30])]
        elif k == 1: t[i:i] = r.choice(TOKENS)
        elif k == 2: t[i:i] = b" " + r.choice(TOKENS) + b" "
        elif k == 3 and t: t[min(i, len(t) - 1)] = r.randrange(256)
        elif k == 4: del t[i:]
        elif k == 5: del t[:i]
        elif k == 6: j = r.randrange(len(t) + 1); t[i:i] = t[j:j + r.choice([1, 5, 40])]
        elif k == 7: t[i:i] = bytes([r.randrange(256)])
        elif k == 8 and t:
            # swap two words
            w = re.split(rb"(\s+)", bytes(t))
            if len(w) > 4: a, b = r.randrange(len(w)), r.randrange(len(w)); w[a], w[b] = w[b], w[a]; t = bytearray(b"".join(w))
        elif k == 9: t[i:i] = r.choice([b"\"", b"'", b"(", b"[", b"{", b"@[", b"${", b"&{", b"end", b"do", b"#"]) * r.choice([1, 2, 30])
        elif t: t[min(i, len(t) - 1)] ^= 1 << r.randrange(8)
    return bytes(t[:30000])


def special(r):
    """Long and nested texts."""
    n = r.choice([10, 100, 300]); m = r.choice([1000, 20000, 60000])
    return r.choice([
        lambda: b"let x = " + b"(" * n + b"1" + b")" * r.choice([n, n - 1, n + 1]), lambda: b"let x = " + b"[" * n + b"]" * r.choice([n, n - 1, n + 1]), lambda: b"let f = " + b"function () " * n + b"end " * r.choice([n, n - 1, n + 1]),
        lambda: b"if true then " * n + b"end " * r.choice([n, n - 1]), lambda: b"let x = " + b"not " * n + b"true", lambda: b"let x = " + b"-" * n + b"1", lambda: b"let x = 1" + b" + 1" * m, lambda: b"let x = [" + b"1," * m + b"]", lambda: b"let x = \"" + b"a" * m,
        lambda: b"let x = \"" + b"\\n" * m + b"\"", lambda: b"# " + b"c" * m, lambda: b"\n" * m, lambda: b" " * m + b"x", lambda: b"x" * m, lambda: b"9" * m, lambda: b"1." + b"0" * m, lambda: b"{ " + b"a " * m + b"}", lambda: b"{ a" + b" | a" * min(m, 3000) + b" }",
        lambda: b"{ a" + b"; a" * min(m, 3000) + b" }", lambda: b"{ \"" + b"$x" * min(m, 3000) + b"\" }", lambda: b"x" + b".y" * n, lambda: b"std" + b"()" * n, lambda: b"let x = std" + b"[0]" * n, lambda: b"let x = nil" + b" = nil" * n, lambda: b"@" * m, lambda: b"\xff" * m, lambda: b"\x00" * m,
        lambda: b"let x = " + b"@[ a: " * n + b"1" + b" ]" * n, lambda: b"}" * m, lambda: b"end " * m, lambda: b")" * m, lambda: b"{" * n, lambda: b"let " * m, lambda: b"let x = if true then 1 " + b"elseif true then 2 " * n + b"end", lambda: b"let f = function (" + b"a, " * n + b") end",
        lambda: b"break\n" * m, lambda: b"let u = u%d\n" % r.randrange(9) * min(m, 5000), lambda: b"x = 1\n" * min(m, 5000), lambda: b"'" * m, lambda: b"\"" * m, lambda: b"$" * m, lambda: b"{ $" * n, lambda: b"{ ${" * n, lambda: b"{ a > " * n, lambda: b"{ > > > }", lambda: b"{ " + b"? " * n + b"}",
        lambda: b"{ " + b"'a'\"b\"" * n + b" }", lambda: b"{ " + b"\\" * n + b" }", lambda: b"let x = \"" + b"\\" * n, lambda: b"{ a=" * n + b"}", lambda: b"#", lambda: b"", lambda: b"\\", lambda: b"let", lambda: b"{ a #", lambda: b"{ a # }", lambda: b"1.0e" + b"9" * 30, lambda: b"let x = 1.0e" + b"0" * n + b"1",
    ])()


START = [b"", b"", b"\xef\xbb\xbf", b"#!/usr/bin/env hush\n", b"#!\n", b"\xff\xfe", b"\xfe\xff", b"\0", b"\r\n", b"\x0c", b"\xc2\xa0", b"\n\n", b"# -*- coding: latin-1 -*-\n", b"\x1a", b";", b" ", b"\t", b"\\\n", b"#\n", b"\xef\xbb", b"\x7fELF"]
FINISH = [b"", b"", b"\0", b"\0\0\0\0", b"\x1a", b"\x04", b"\n\n\n", b"\r", b"\r\n", b"\\", b"\\\n", b"#", b"# end", b" ", b"\t", b"\xff", b"\x0c", b"\n__END__\ngarbage ( here", b";", b"\xe2\x80\xa8", b"\n#\n=end"]
SKIP = b"std.panic(\"ACCEPTED\")\nwhile false do end\n"        # the text is read, but never executed


def batch(seed):
    """Many texts, each read as a module by one process."""
    r = random.Random(seed)
    d = common.scratch()
    texts = [special(r) if r.random() < 0.04 else mutate(r, seed_text(r)) for _ in range(40)]
    # bytes that other programs treat specially at the ends of a text
    whole = [SKIP + t for t in texts]
    odd = r.sample(range(len(texts)), 4)
    for i in odd:
        if r.random() < 0.7: texts[i] = r.choice([b"", b"", b"\n", b"let x = 1\n"])
        whole[i] = r.choice(START) + SKIP + texts[i] + r.choice(FINISH)
    for i, t in enumerate(texts):
        with open(os.path.join(d, "m%d.hsh" % i), "wb") as f: f.write(whole[i])
    def main(ix):
        return b"let v = function (n)\nlet e = std.catch(function () std.import(n) end)\nif std.type(e) != \"error\" then \"strange\" else if std.len(std.regex(\"ACCEPTED\").split(e.description)) > 1 then \"yes\" else e.description end end\nend\n" + \
            b"".join(b"std.println(\"%d \" ++ v(\"m%d.hsh\"))\n" % (i, i) for i in ix) + b"std.println(\"done\")\n"
    s = common.hush(main(range(len(texts))), cwd=d, name="main.hsh", timeout=120)
    verdict = {}
    stats = {"texts": len(texts), "accepted": 0, "rejected": 0}
    def fail(desc, t, res):
        return {"ok": False, "desc": desc + "\ntext: %r" % t[:600], "files": {"text.hsh": t, "stderr.txt": res.err[-4000:], "stdout.txt": res.out[-2000:]}}
    if s.timeout or s.crash() or s.status != 0 or b"done\n" not in s.out:
        # find the culprit
        for i, t in enumerate(texts):
            q = common.hush(main([i]), cwd=d, name="main.hsh")
            if q.timeout and not q.stuck: continue
            if q.stuck or q.crash() or q.status != 0: return fail("reading a text as a module: status %s, %s" % (q.status, "runs forever" if q.spin else "stuck" if q.stuck else q.err[-300:]), t, q)
        if s.timeout and not s.stuck: return {"ok": True, "inconclusive": "watchdog"}
        return fail("reading texts as modules: status %s: %s" % (s.status, s.err[-300:]), main(range(len(texts))), s)
    for l in s.out.split(b"\n"):
        i, _, w = l.partition(b" ")
        if i.isdigit(): verdict[int(i)] = w
    # the reports, per module
    rep = {}
    base = os.path.realpath(d).encode()
    for m in re.finditer(rb"(?m)^Error: " + re.escape(base) + rb"/m(\d+)\.hsh", s.err): rep[int(m.group(1))] = rep.get(int(m.group(1)), 0) + 1
    bad = None
    for i, t in enumerate(texts):
        w = verdict.get(i)
        if w == b"yes":
            stats["accepted"] += 1
            if rep.get(i): bad = ("accepted, but with an error report", t)
        elif w is None or w == b"strange" or b"failed to import module" not in w: bad = ("neither accepted nor rejected: %r" % w, t)
        else:
            stats["rejected"] += 1
            if not rep.get(i):
                # the end of the file is reported without a position
                q = common.hush(whole[i], cwd=d, flags=("--check",), name="f.hsh")
                if q.timeout and not q.stuck: return {"ok": True, "inconclusive": "watchdog"}
                if q.status != 2 or not q.err.startswith(b"Error: "): bad = ("rejected without an error report", t)
        if bad: return fail(*bad, s)
    # the same text as a file, in stdin, and analysed only
    for i in r.sample(range(len(texts)), 3) + odd:
        want = 0 if verdict[i] == b"yes" else 2
        full = whole[i]
        a = common.hush(full, cwd=d, flags=("--check",), name="f.hsh")
        b = common.run([common.W["hush"], "--check"], stdin=full, env=common.BASE_ENV, cwd=d)
        c = common.hush(full, cwd=d, name="f.hsh")
        for q, how in ((a, "file --check"), (b, "stdin --check"), (c, "file")):
            if q.timeout and not q.stuck: return {"ok": True, "inconclusive": "watchdog"}
            if q.stuck or q.crash(): return fail("%s: status %s: %s" % (how, q.status, q.err[-300:]), full, q)
        if a.status != want or b.status != want: return fail("as a module it is %s, as a file --check gives %s, in stdin %s" % ("accepted" if want == 0 else "rejected", a.status, b.status), full, a)
        if c.status != (127 if want == 0 else 2): return fail("--check gives %s, execution %s" % (a.status, c.status), full, c)
        ra = a.err.replace(os.path.join(d, "f.hsh").encode(), b"@"); rb = b.err.replace(b"<stdin>", b"@"); rc = c.err.replace(os.path.join(d, "f.hsh").encode(), b"@")
        if ra != rb or (want == 2 and ra != rc): return fail("the reports differ between file and stdin: %r against %r" % (ra[:300], rb[:300]), full, a)
        if want == 2 and not ra.startswith(b"Error: "): return fail("rejected without a report: %r" % ra[:200], full, a)
        stats["read_three_ways"] = stats.get("read_three_ways", 0) + 1
    shutil.rmtree(d, ignore_errors=True)
    return {"ok": True, "evals": len(texts), "distinct": texts, "stats": stats, "sample": {"text": repr(texts[0][:200]), "verdict": repr(verdict[0][:100])}}


def raw(seed):
    """The bare text as the whole script: never executed beyond what --check does; the printing flags included."""
    r = random.Random(seed)
    t = special(r) if r.random() < 0.1 else mutate(r, seed_text(r))
    d = common.scratch()
    bad = None
    res = []
    for flags in ((), ("--lex",), ("--ast",), ("--program",)):
        if flags and r.random() < 0.7: continue
        q = common.hush(t, cwd=d, flags=("--check",) + flags, name="f.hsh")
        if q.timeout and not q.stuck: return {"ok": True, "inconclusive": "watchdog"}
        if q.stuck: bad = "%s: %s" % (flags, "runs forever" if q.spin else "stuck")
        elif q.crash() or q.status not in (0, 2): bad = "%s: status %s: %s" % (flags, q.status, q.err[-300:])
        elif q.status == 2 and not q.err.startswith(b"Error: "): bad = "%s: rejected without a report: %r" % (flags, q.err[:200])
        elif q.status == 0 and q.err: bad = "%s: accepted with a report: %r" % (flags, q.err[:200])
        if bad: break
        res.append(q.status)
    if not bad and len(set(res)) > 1: bad = "the verdict depends on the flags: %s" % res
    if not bad:
        w = r.choice([b"", b"", b"", r.choice(START)]) + t + r.choice([b"", b"", b"", r.choice(FINISH)])
        a = common.hush(w, cwd=d, flags=("--check",), name="f.hsh"); b = common.run([common.W["hush"], "--check"], stdin=w, env=common.BASE_ENV, cwd=d)
        if a.timeout and not a.stuck or b.timeout and not b.stuck: return {"ok": True, "inconclusive": "watchdog"}
        if a.stuck or a.crash() or b.stuck or b.crash(): bad = "status %s as a file, %s in stdin: %s" % (a.status, b.status, (a.err + b.err)[-300:])
        elif (a.status, a.err.replace(os.path.join(d, "f.hsh").encode(), b"@")) != (b.status, b.err.replace(b"<stdin>", b"@")): bad = "as a file: status %s, %r; in stdin: status %s, %r" % (a.status, a.err[:200], b.status, b.err[:200])
        if bad: t = w
    # an accepted text stays accepted when blank lines and comments follow or precede it
    if not bad and res and res[0] == 0:
        q = common.hush(b"# first\n\n" + t + b"\n# last", cwd=d, flags=("--check",), name="f.hsh")
        if q.status != 0 and not q.timeout: bad = "accepted, but rejected with a comment before and after it: %r" % q.err[:200]
    shutil.rmtree(d, ignore_errors=True)
    return {"ok": bad is None, "evals": len(res), "distinct": [t], "stats": {"raw_texts": 1, "raw_accepted": int(bool(res) and res[0] == 0)}, "desc": "%s\ntext: %r" % (bad, t[:600]), "files": {"text.hsh": t}}


def run(c):
    c.rule = ("mutated programs, command blocks, repository scripts, token soups, random bytes, long and nested texts, read as modules, files and stdin and with every flag; a crash, a runaway, a missing report or a verdict that depends on the way of reading is a violation; distinct by text")
    k = lambda f, q, t: c.map(f, ["c20%s/%d/%d" % (f.__name__, c.seed, i) for i in range(c.n(q, t))], cap=c.cap(100, 1500), chunk=2)
    k(batch, 900, 20000)
    if c.viol: return
    k(raw, 1500, 40000)
    if c.viol: return
    c.exhaust("deep-nesting", b"let x = " + b"(" * 20000 + b"1" + b")" * 20000 + b"\nstd.println(x)\n", [(0, b"1\n"), (2, b"")])
