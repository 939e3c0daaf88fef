"""Running command blocks: the recording tool, its log, and generated command words with the
argument vector they denote."""
import fcntl, os, subprocess, sys
from . import common, printer
from .lang import *
from .stdmodel import show


def tool():
    """Compile the recording tool."""
    d = os.path.join(common.BUILD, "tool")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(common.VERIF, "tool", "hv.c")
    out = os.path.join(d, "hv")
    with open(os.path.join(common.BUILD, "tool.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            tmp = out + ".new"
            p = subprocess.run(["gcc", "-O1", "-w", "-o", tmp, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode: raise common.HarnessError("cannot compile hv: %s" % p.stdout.decode()[:500])
            os.replace(tmp, out)
    return out


class Rec:
    """A record of the log."""
    __slots__ = ("kind", "t", "pid", "ppid", "f")
    def __init__(self, line):
        w = line.split(b" ")
        self.kind = w[0].decode(); self.t = int(w[1]); self.pid = int(w[2]); self.ppid = int(w[3]); self.f = w[4:]
    def text(self, i=0): return bytes.fromhex(self.f[i].decode())
    def strs(self, frm=0): return [bytes.fromhex(x[1:].decode()) for x in self.f[frm:]]
    def __repr__(self): return "%s %d %s" % (self.kind, self.pid, self.f[:8])


def read_log(path):
    try:
        with open(path, "rb") as f: b = f.read()
    except FileNotFoundError: return []
    return [Rec(l) for l in b.split(b"\n") if l]


class Shot:
    pass


def shot(script, cwd=None, env=None, timeout=60, **kw):
    """Run a script in a fresh scratch directory, log included. The tool is `hv` on the PATH."""
    s = Shot()
    s.dir = cwd or common.scratch()
    s.log = os.path.join(common.W["tmp"], "hvlog-%s" % os.path.basename(s.dir))
    try: os.unlink(s.log)
    except FileNotFoundError: pass
    e = {"HV_LOG": s.log, "PATH": os.path.dirname(common.W["hv"]) + ":/usr/local/bin:/usr/bin:/bin"}
    if env: e.update(env)
    # the script itself lives outside the working directory
    sd = os.path.join(common.W["tmp"], "script"); os.makedirs(sd, exist_ok=True)
    path = os.path.join(sd, kw.pop("name", "t.hsh"))
    with open(path, "wb") as f: f.write(script)
    ee = dict(common.BASE_ENV); ee.update(e)
    for k in [k for k, v in ee.items() if v is None]: del ee[k]
    s.r = common.run([kw.pop("binary", None) or common.W["hush"], *kw.pop("flags", ()), path, *kw.pop("args", ())], env=ee, cwd=s.dir, timeout=timeout, **kw)
    s.recs = read_log(s.log)
    return s


def gen_bytes(seed, n):
    return subprocess.run([common.W["hv"], "gen", str(seed), str(n)], stdout=subprocess.PIPE, check=True).stdout


# ------------------------------------------------------------------ words
STAR, ANY = ("*",), ("?",)
WS = b" \t\n\x0c\r"
SPECIAL = b"#'\"><?;$=}{[~*%\\|" + WS + b"\x00"
PLAIN = bytes(c for c in range(1, 256) if c not in SPECIAL)
COMMON = b"abcXYZ019_-./,:@+^!&()]"


def basic_text(v):
    """Text of a scalar variable in a command, or None when it cannot be one."""
    t = tname(v)
    if t == "nil": return b""
    if t == "string": return v
    if t == "char": return bytes([v.v])
    if t in ("bool", "int", "float"): return show(v).encode()
    return None


class Words:
    def __init__(self, r, home, scalars, arrays=()):
        self.r, self.home = r, home
        self.scalars, self.arrays = scalars, arrays     # [(name, value)]

    def chars(self, n, alpha=None):
        r = self.r
        if alpha is None: alpha = r.choice([COMMON, COMMON, PLAIN])
        return bytes(r.choice(alpha) for _ in range(n))

    def unquoted(self):
        """-> (source, bytes)"""
        src = bytearray(); val = bytearray()
        for _ in range(self.r.randint(1, 5)):
            if self.r.random() < 0.25:
                c = self.r.choice(b"#'\"><?;$= \t\nnt\\")
                src += b"\\" + bytes([c]); val += {ord("n"): b"\n", ord("t"): b"\t"}.get(c, bytes([c]))
            else:
                c = self.chars(1); src += c; val += c
        return bytes(src), bytes(val)

    def quoted(self, q):
        r = self.r; src = bytearray(b"'" if q else b'"'); val = bytearray()
        for _ in range(r.choice([0, 1, 2, 3, 6])):
            k = r.random()
            if k < 0.2:
                c = r.choice(b"nt\\" + (b"'" if q else b'"$'))
                src += b"\\" + bytes([c]); val += {ord("n"): b"\n", ord("t"): b"\t"}.get(c, bytes([c]))
            elif k < 0.6:
                c = bytes([r.choice(b" *%?~/;|&<>#{}[]()=`!a1\n\t" + (b'"$' if q else b"'"))]); src += c; val += c
            elif k < 0.75 and not q and self.scalars:
                n, v = r.choice(self.scalars)
                src += b"${%s}" % n; val += basic_text(v)
            elif k < 0.85 and not q and self.scalars:
                n, v = r.choice(self.scalars)
                c = self.chars(1, b"-./ *%,")
                src += b"$" + n + c; val += basic_text(v) + c
            else:
                c = self.chars(r.randint(1, 3), bytes(x for x in range(1, 256) if x not in b"'\"$\\")); src += c; val += c
        return bytes(src + (b"'" if q else b'"')), bytes(val)

    def word(self, first=False, arrays=0.1, wild=0.0, maxparts=4, home=0.06):
        """-> (source, alternatives); an alternative is a list of bytes, STAR and ANY; no alternatives
        means no argument. A `first` word must not read as an environment assignment."""
        r = self.r
        if r.random() < 0.04:
            t = b"~" + self.chars(2, b"ab-._")        # no home without the slash
            return t, [[t]]
        parts = []                                    # (source, braced source or None, values)
        n = r.choice([1, 1, 1, 2, 2, 3, maxparts])
        size = 1
        while len(parts) < n:
            k = r.random(); i = len(parts)
            if i == 0 and self.home is not None and r.random() < home:
                h = self.home if self.home.endswith(b"/") else self.home + b"/"
                parts.append((b"~/", None, [h])); n = max(n, 2)
            elif i > 0 and r.random() < 0.05: parts.append((b"~/", None, [b"~/"]))      # home only at the start
            elif r.random() < wild:
                parts.append(r.choice([(b"*", None, [STAR]), (b"%", None, [ANY])]))
            elif k < 0.35: s, v = self.unquoted(); parts.append((s, None, [v]))
            elif k < 0.50: s, v = self.quoted(True); parts.append((s, None, [v]))
            elif k < 0.65: s, v = self.quoted(False); parts.append((s, None, [v]))
            elif k < 0.65 + arrays and self.arrays:
                name, v = r.choice(self.arrays)
                if not v.a:
                    if n == 1: return b"$" + name, []
                    continue
                if size * len(v.a) > 60: continue
                size *= len(v.a)
                parts.append((b"$" + name, b"${%s}" % name, [basic_text(x) for x in v.a]))
            elif k < 0.93 and self.scalars:
                name, v = r.choice(self.scalars)
                parts.append((b"$" + name, b"${%s}" % name, [basic_text(v)]))
            elif i > 0 and not first: parts.append((b"=", None, [b"="]))
            else: s, v = self.quoted(True); parts.append((s, None, [v]))
        src = b""; alts = [[]]
        for i, (s, braced, vs) in enumerate(parts):
            nxt = parts[i + 1][0] if i + 1 < len(parts) else b""
            if braced and (r.random() < 0.5 or nxt[:1].isalnum() or nxt[:1] == b"_"): s = braced
            src += s
            alts = [x + [v] for v in vs for x in alts]
        return src, alts

    def sep(self):
        return self.r.choice([b" ", b" ", b" ", b"  ", b"\t", b"\n", b" \n ", b" # note ; } | 'x\n "])


def join_alt(a):
    """Bytes of an alternative without wildcards."""
    return b"".join(x for x in a)


# ------------------------------------------------------------------ patterns
def match_comp(pat, name):
    """pat: list of bytes / STAR / ANY; name: bytes (UTF-8). Characters, not bytes."""
    p = []
    for x in pat:
        if x in (STAR, ANY): p.append(x)
        else: p += list(x.decode("utf-8"))
    s = name.decode("utf-8")
    # dynamic programming
    cur = {0}
    def close(st):
        out = set(st); work = list(st)
        while work:
            i = work.pop()
            if i < len(p) and p[i] == STAR and i + 1 not in out: out.add(i + 1); work.append(i + 1)
        return out
    cur = close(cur)
    for ch in s:
        nxt = set()
        for i in cur:
            if i < len(p):
                if p[i] == STAR: nxt.add(i)
                elif p[i] == ANY or p[i] == ch: nxt.add(i + 1)
        cur = close(nxt)
    return len(p) in cur


def expand(alt, cwd):
    """Existing paths (relative ones without ./) matching an alternative with wildcards."""
    comps = [[]]; absolute = False
    first = True
    for x in alt:
        if x in (STAR, ANY): comps[-1].append(x); first = False; continue
        for j, piece in enumerate(x.split(b"/")):
            if j > 0:
                if first and comps == [[]]: absolute = True
                comps.append([])
            if piece: comps[-1].append(piece); first = False
    comps = [c for c in comps if c]
    cur = [b"/" if absolute else b""]
    for c in comps:
        nxt = []
        wild = any(x in (STAR, ANY) for x in c)
        for d in cur:
            full = os.path.join(os.fsencode(cwd), d) if d else os.fsencode(cwd)
            if wild:
                try: names = os.listdir(full)
                except OSError: continue
                for n in names:
                    if match_comp(c, n): nxt.append(os.path.join(d, n) if d else n)
            else:
                n = b"".join(c)
                q = os.path.join(d, n) if d else n
                if os.path.exists(os.path.join(os.fsencode(cwd), q)): nxt.append(q)
        cur = nxt
    return cur
