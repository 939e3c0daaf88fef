"""C02: control flow and evaluation order."""
import random
from engine import diff
from engine.lang import *
from . import flow


def values_block(rng):
    """Values of blocks and function bodies by their last statement."""
    def F(body): return call(N("paren", fn([], body)))
    b = []
    forms = [
        [], [let("x", lit(1))], [let("x", lit(1)), assign(var("x"), lit(2))], [es(lit(5))], [es(lit(1)), es(lit(2)), es(lit(b"last"))],
        [while_(lit(False), [es(lit(1))])], [for_("i", scall("range", lit(0), lit(2), lit(1)), [es(var("i"))])],
        [es(if_(lit(True), [es(lit(3))]))], [es(if_(lit(False), [es(lit(3))]))], [es(if_(lit(True), []))], [es(if_(lit(True), [let("y", lit(1))], [es(lit(2))]))],
        [es(if_(lit(False), [es(lit(1))], [es(if_(lit(True), [es(lit(b"nested"))], []))]))],
        [ret(None)], [ret(lit(9))], [es(if_(lit(True), [ret(lit(4))])), es(lit(5))], [es(if_(lit(False), [ret(lit(4))])), es(lit(5))],
        [N("fundef", "k", fn([], [es(lit(1))]))], [es(fn([], [es(lit(1))]))],
        [while_(lit(True), [brk()])], [while_(lit(True), [ret(lit(b"w"))])],
        [for_("i", scall("iter", lit(b"abc")), [ret(var("i"))])], [for_("i", scall("iter", N("arr", [])), [ret(var("i"))]), es(lit(b"none"))],
        [let("o", N("dict", [("a", lit(1))])), assign(dot(var("o"), "a"), lit(2))],
        [es(scall("push", N("arr", []), lit(1)))], [es(N("arr", [if_(lit(True), [ret(lit(b"from arr"))], [es(lit(2))])]))],
    ]
    for i, f in enumerate(forms): b.append(trace("val%d" % i, F(f)))
    # protocol of for loops
    bad = [N("dict", []), N("dict", [("finished", lit(False))]), N("dict", [("value", lit(1))]), N("dict", [("finished", lit(1))]), lit(1), lit(None), N("arr", [])]
    for i, x in enumerate(bad):
        b.append(trace("badit%d" % i, scall("catch", fn([], [for_("i", fn([], [es(x)]), [trace("body", lit(1))]), es(lit(b"end"))]))))
    for i, x in enumerate([lit(1), lit(b"abc"), N("arr", []), N("dict", [])]):
        b.append(trace("notit%d" % i, scall("catch", fn([], [for_("i", x, [trace("body", lit(1))])]))))
    b.append(trace("paramit", scall("catch", fn([], [for_("i", fn(["z"], []), [])]))))
    return b


def values_case(seed):
    return diff.check_block(values_block(random.Random(seed)), seed, "pretty")


def run(c):
    c.rule = ("all one- and two-level nestings (and random deeper ones) of blocks, loops, functions and expression positions around a break, "
              "return, `?` or panic, plus generated programs with traced operands; non-trivial: more than 3 trace records, distinct by nesting or event log")
    c.map(values_case, ["values"])
    if c.viol: return
    c.map(flow.nest_case, flow.plans(c, ["break", "return", "returnnil", "try", "panic", "none"], extra=c.n(1500, 30000)), cap=c.cap(150, 1500))
    if c.viol: return
    c.map(diff.case_batch, diff.programs(c, ["flow", "flow", "mix"], c.n(5000, 60000)), cap=c.cap(150, 1500))
