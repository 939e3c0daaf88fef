"""Differential monitor: a generated program is executed by the real interpreter, its recorded
event log (trace records, exit status, panic) is compared with the one of the reference model."""
import random, hashlib
from . import common, gen, printer
from .lang import *

HEAD = PRELUDE + gen.PRELUDE_V + b"\n"     # one line, so programs start at line 2


def observe(src, **kw):
    r = common.hush(src, **kw)
    if r.timeout and not r.stuck: return None, r
    kind = None
    if r.status == 127:
        p = parse_panic(r.err.decode("utf-8", "replace").strip())
        kind = p[3] if p else "unreported"
    return (norm_output(r.out), r.status, kind), r


def first_diff(e, a):
    e, a = e.split(b"\n"), a.split(b"\n")
    for i in range(max(len(e), len(a))):
        x = e[i] if i < len(e) else b"<end>"
        y = a[i] if i < len(a) else b"<end>"
        if x != y: return "record %d: expected %r, observed %r" % (i, x[:300], y[:300])
    return "no difference in output"


def mismatch(block, rng, style, trailing=0.0, binary=None, env=None, timeout=60):
    """-> None when the execution agrees with the model, else (desc, files). Raises Budget/Inconclusive."""
    out, status, kind, m = gen.expect(block)
    src = HEAD + printer.source(block, rng, style, trailing=trailing, start=(2, 0))
    obs, r = observe(src, binary=binary, env=env, timeout=timeout)
    if obs is None: raise Inconclusive("watchdog")
    if obs == (out, status, kind): return None, out, src, status, kind
    desc = "the execution differs from the model: %s; expected status %s (%s), observed %s (%s)%s" % (
        first_diff(out, obs[0]), status, kind, obs[1], obs[2],
        "\nstderr: " + r.err.decode("utf-8", "replace")[:800] if r.err else "")
    return (desc, {"program.hsh": src, "expected.txt": out, "observed.txt": obs[0], "stderr.txt": r.err}), out, src, status, kind


class Inconclusive(Exception):
    pass


def shrink(block, style, tries=80):
    """Greedy removal of top-level statements while a mismatch persists."""
    best = list(block)
    i = 0
    size = max(1, len(best) // 2)
    last = None
    while size >= 1 and tries > 0:
        i = 0
        while i < len(best) and tries > 0:
            cand = best[:i] + best[i + size:]
            tries -= 1
            try:
                bad = mismatch(cand, random.Random(0), style)[0]
            except (Budget, Inconclusive):
                bad = None
            if bad: best = cand; last = bad
            else: i += size
        size //= 2
    return best, last


def check_block(block, rng_seed, style="pretty", trailing=0.0, tagprefix="", shrinkable=True):
    res = {"ok": True, "stats": {}, "distinct": []}
    try:
        bad, out, src, status, kind = mismatch(block, random.Random(rng_seed), style, trailing)
    except Budget as e:
        res["stats"]["discarded"] = 1; res["evals"] = 0
        return res
    except Inconclusive as e:
        res["inconclusive"] = "program %s: %s" % (rng_seed, e)
        return res
    ev = out.count(b"\n")
    res["stats"] = {"trace_events": ev, "status_%d" % status: 1}
    if kind: res["stats"]["uncaught_" + kind] = 1
    res["stats"]["caught_panics"] = out.count(b"E(!")
    if ev > 3: res["distinct"] = [out]
    res["sample"] = {"program": src[len(HEAD):len(HEAD) + 600].decode("utf-8", "replace"), "events": ev, "status": status}
    if bad:
        again = 0
        for i in range(4):
            try:
                b2 = mismatch(block, random.Random(rng_seed), style, trailing)[0]
            except Inconclusive: b2 = None
            if b2: again += 1
        if not again:
            res["stats"]["unreproduced"] = 1
            return res
        desc, files = bad
        if shrinkable:
            try:
                b, last = shrink(block, style)
                if last: desc, files = last[0], dict(last[1], **{"full_program.hsh": files["program.hsh"]})
            except Exception: pass
        res.update(ok=False, desc=desc, files=files)
    return res


def case(item):
    """item = (seed text, profile, size, style)."""
    seed, profile, size, style = item
    rng = random.Random(seed)
    g = gen.Gen(rng, profile, size)
    b = g.program()
    return check_block(b, seed, style, trailing=0.3 if style != "pretty" else 0.05)


def case_batch(items):
    """Several programs per task, to keep the pool's overhead down."""
    agg = {"ok": True, "stats": {}, "distinct": [], "evals": 0}
    for it in items:
        r = case(it)
        agg["evals"] += r.get("evals", 1)
        for k, v in r.get("stats", {}).items(): agg["stats"][k] = agg["stats"].get(k, 0) + v
        agg["distinct"] += r.get("distinct", [])
        if "sample" in r: agg["sample"] = r["sample"]
        if r.get("inconclusive"): agg["inconclusive"] = r["inconclusive"]
        if not r["ok"]:
            agg.update(ok=False, desc=r["desc"], files=r["files"]); break
    return agg


def programs(c, profile_mix, count, size=40, styles=("pretty",), label="p", batch=20):
    items = []
    rng = c.rng("mix", label)
    cur = []
    for i in range(count):
        prof = rng.choice(profile_mix)
        cur.append(("%s/%s/%s/%d" % (c.prop, c.seed, label, i), prof, rng.choice([size // 2, size, size, size * 2]), rng.choice(styles)))
        if len(cur) == batch: items.append(cur); cur = []
    if cur: items.append(cur)
    return items
