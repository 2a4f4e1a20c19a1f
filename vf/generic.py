"""C30, C31: relational macros and exceptions."""
import math
from .core import *

KINDS = ["card", "item", "level", "levellong", "marklong", "box", "boxd", "boxlong", "beast", "beastlong", "boxs"]


def gen_c30(rng, tier):
    S = []
    vals = [-2, -1, 0, 1, 2]
    for kind in KINDS:
        ops = []
        for a in vals:  # everything small
            for b in vals:
                for ta, tb in ([(0, 0), (0, 1), (1, 0)] if kind in ("card", "item", "box", "boxd", "boxlong", "boxs") else [(0, 0)]):
                    ops.append("compare %s %s %s" % (kind, vec([a, ta]), vec([b, tb])))
        for _ in range(100 if tier != "thorough" else 2000):
            a, ta = rng.choice([rng.randint(-10**9, 10**9), rng.randint(-9, 9)]), rng.randint(-2, 2)
            b, tb = rng.choice([a, a, -a, a + 1, a - 1, rng.randint(-10**9, 10**9)]), rng.choice([ta, ta, rng.randint(-2, 2)])
            if kind == "levellong" and rng.random() < .7:
                b = a // 2 + rng.choice([-1, 0, 0, 1])
            ops.append("compare %s %s %s" % (kind, vec([a, ta]), vec([b, tb])))
        S += [Stim("%s%d" % (kind, i), ops[i:i + 100]) for i in range(0, len(ops), 100)]
    return S


TEXTS = ["", "x", "Winter", "spring", "Spring ", "a quite long name of a move that needs memory of its own", "{}", "{0}", "%s %n", "}{", "1//", "\u00e9", "\n",
         "A" * 300, "Summer2", "[ Unknown Season ]"]
BADRAT = ["", "x", "1/2", "1//0", "1//x", "//", "3.5//2", "1//" + "9" * 40]
PROBS = ["0", "1.5", "-0.25", "2", "1e300", "-1e-300", "0.1", "-3", "1.0000000000000002", "123456789.125", "nan", "inf", "-inf", "1e22", "5e-324", "1e16", "100000", "0.3333333333333333"]


def failop(rng, k, kind):
    a = {"prob": PROBS, "rational": BADRAT}.get(kind, TEXTS)
    if kind == "prob" and rng.random() < .6:
        v = repr(rng.choice([rng.uniform(-5, 5), rng.uniform(-1, 1) * 10. ** rng.randint(-30, 30)]))
    else:
        v = rng.choice(a)
    if kind == "enum":
        while v in ("Spring", "Summer"):
            v = rng.choice(a)
    return "fail %d %s %s" % (k, kind, hx(v) if v.isascii() else hx(v.encode("utf-8")))


def gen_c31(rng, tier):
    S = []
    kinds = ["move", "prob", "parse", "overflow", "enum", "rational", "sequence"]
    for kind, vs in [("prob", PROBS), ("move", TEXTS), ("sequence", TEXTS), ("enum", TEXTS), ("rational", BADRAT)]:
        ops = []
        for v in vs:
            ops += ["fail 0 %s %s" % (kind, hx(v) if v.isascii() else hx(v.encode("utf-8"))), "what 0", "copy 1 0 clone", "copy 2 1 throw", "drop 0", "drop 1", "what 2"]
        S.append(Stim("all_" + kind, ops))
    for n in range(40 if tier != "thorough" else 400):
        ops, live = [], {}
        for _ in range(40):
            w = rng.random()
            k = rng.randrange(4)
            if w < .3 or not live:
                kind = rng.choice(kinds)
                ops.append(failop(rng, k, kind))
                live[k] = kind
            elif w < .7:
                f = rng.choice(sorted(live))
                how = rng.choice(["clone", "assign", "throw"])
                group = lambda q: {"sequence": "move", "rational": "parse"}.get(q, q)
                if how == "assign" and k in live and group(live[k]) != group(live[f]):
                    how = "clone"
                ops.append("copy %d %d %s" % (k, f, how))
                live[k] = live[f]
            elif w < .85:
                ops.append("what %d" % rng.choice(sorted(live)))
            elif len(live) > 1:
                f = rng.choice(sorted(live))
                ops.append("drop %d" % f)
                del live[f]
        S.append(Stim("life%d" % n, ops))
    return S


def lifeconv(h, rng):
    ops, live = [failop(rng, 0, h[0])], {0}
    for o in h[1:]:
        ops.append(o)
        w = o.split()
        live = live | {int(w[1])} if w[0] == "copy" else live - {int(w[1])}
        ops += ["what %d" % k for k in sorted(live)]
    return ops


OBS = {"compare": ["eq", "ne", "le", "gt", "ge", "req", "rne", "rle", "rgt", "rge"], "copy": ["what"], "what": ["what"]}
U = dict(spec="Trace_Generic", obs=OBS, build=[dict(driver="drv_generic")])
CHECKS = {
    "C30": dict(U, gen=gen_c30, mc=[("MC_Generic", "MC_Generic")]),
    "C31": dict(U, gen=gen_c31, tlcgen=[("Gen_Fail", "Gen_Fail")], tlcgen_thorough=[("Gen_Fail", "Gen_Fail_thorough")], mc=[("MC_Generic", "MC_Generic")], tlcconv=lifeconv),
}
