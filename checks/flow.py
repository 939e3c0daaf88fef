"""Shared by C02 and C10: nested transfers of control."""
import itertools, random
from engine import diff
from engine.lang import *
from engine.nest import *


def nest_case(item):
    seed, plans = item
    rng = random.Random(seed)
    agg = {"ok": True, "stats": {}, "distinct": [], "evals": 0}
    for levels, esc in plans:
        n = Nest(rng)
        block = n.program(levels, esc)
        r = diff.check_block(block, seed + "/" + esc, "pretty", shrinkable=False)
        agg["evals"] += r.get("evals", 1)
        for k, v in r["stats"].items(): agg["stats"][k] = agg["stats"].get(k, 0) + v
        agg["stats"]["nestings"] = agg["stats"].get("nestings", 0) + 1
        agg["distinct"] += ["%s|%s" % ("/".join(levels), esc)]
        if r.get("inconclusive"): agg["inconclusive"] = r["inconclusive"]
        if r["stats"].get("discarded"): agg["inconclusive"] = "discarded nest %s %s" % (levels, esc)
        if not r["ok"]:
            agg.update(ok=False, desc="nesting %s with %s: %s" % ("/".join(levels), esc, r["desc"]), files=r["files"]); break
    return agg


def plans(c, escapes, pairs=True, extra=0, maxdepth=5):
    allk = LOOPS + FUNS + EXPRS + BLOCKS
    out = []
    for k in allk:
        for e in escapes: out.append(((k,), e))
    if pairs:
        for a, b in itertools.product(allk, allk):
            for e in escapes: out.append(((a, b), e))
    rng = c.rng("nest")
    for _ in range(extra):
        d = rng.randint(3, maxdepth)
        out.append((tuple(rng.choice(allk) if rng.random() < 0.7 else rng.choice(LOOPS + FUNS) for _ in range(d)), rng.choice(escapes)))
    rng.shuffle(out)
    return [("nest/%d/%d" % (c.seed, i), out[i:i + 25]) for i in range(0, len(out), 25)]
