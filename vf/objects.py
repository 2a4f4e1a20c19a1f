"""C14 - C21: statistics objects (move statistics, accumulators, histograms,
observable groups), their checkpoints and copies."""
import math
from .core import *

TOP = 2**63 - 1


# ---------------------------------------------------------------- values ----
def small(rng):
    return float(rng.randint(-9, 9)) if rng.random() < .6 else rng.randint(-999, 999) / rng.choice([2., 8., 1024.])


def anyval(rng):
    w = rng.random()
    if w < .3:
        return small(rng)
    if w < .5:
        return rng.uniform(-1, 1)
    if w < .7:
        return rng.choice([.1, .3, 1 / 3., 1e-3, 2.7, -.7, 1e9 + .1])
    if w < .8:
        return math.ldexp(rng.uniform(-1, 1), rng.randint(-60, 60))
    return math.ldexp(float(rng.getrandbits(53) or 1), rng.randint(-80, 20)) * rng.choice([1, -1])


def hard(rng, n):
    """sequences that defeat plain and badly compensated sums"""
    w = rng.randrange(13)
    if w == 10:  # neither squares nor products of these are representable
        e = rng.choice([170, 160, 155, -155, -160, -170, -220])
        a, b = 10. ** e * rng.choice([1., 3.]), 10. ** (e + rng.choice([-40, -25, 25, 40]))
        xs = rng.choice([[a, b, -a], [b, a, -a], [a, b, -b], [b, a, -b]]) * max(1, n // 6)
    elif w == 11:  # subnormal numbers
        xs = [math.ldexp(rng.randint(-2**20, 2**20), -1074) for _ in range(n)]
        if rng.random() < .4:
            xs = [1., -1.] + xs + [1e-300, -1e-300]
    elif w == 12:  # sums of large terms leave subnormal ones
        xs = [math.ldexp(1 + rng.random(), -1022), 5e-324, 1e-310] * max(1, n // 6)
        xs += [-x for x in xs if x > 1e-308]
    elif w == 0:  # large terms cancel
        big = 10. ** rng.randint(8, 60)
        xs = [1., big, 1., -big] * max(1, n // 4)
    elif w == 1:
        xs = [math.ldexp(rng.uniform(-1, 1), rng.randint(-40, 40)) for _ in range(n)]
        xs += [-x for x in rng.sample(xs, len(xs))]
        xs.insert(rng.randrange(len(xs)), rng.uniform(-1, 1))
    elif w == 2:  # growing terms
        xs = [math.ldexp(1 + rng.random(), 5 * k) for k in range(min(n, 40))]
    elif w == 3:  # shrinking terms
        xs = [math.ldexp(1 + rng.random(), -4 * k) for k in range(min(n, 40))]
    elif w == 4:  # a large start and many small terms
        xs = [math.ldexp(1., rng.randint(20, 53))] + [rng.uniform(0, 1) for _ in range(n)]
    elif w == 5:
        xs = [1.] + [math.ldexp(1., -53)] * n
    elif w == 6:
        xs = [rng.choice([.1, .2, .3, .7])] * n
    elif w == 7:  # extreme magnitudes
        e = rng.randint(200, 290)
        xs = [math.ldexp(rng.uniform(-1, 1), rng.choice([e, -e, 0])) for _ in range(n)]
    elif w == 8:
        xs = [0.] * (n // 2) + [anyval(rng) for _ in range(n // 2)] + [-0.]
    else:
        xs = [anyval(rng) for _ in range(n)]
    if rng.random() < .3:
        rng.shuffle(xs)
    return xs


def offset(rng, n):
    """values for moments: also with a mean far larger than the spread"""
    w = rng.randrange(9)
    if w == 8:
        e = rng.choice([-200, -120, -60, 80, 200])
        return [math.ldexp(x, e) for x in offset(rng, n)]
    if w <= 2:
        c = rng.choice([1e6, 1e8, -1e9, 12345678.9, 2.**30, 1e10])
        s = rng.choice([1., .25, 16., 1e-3])
        return [c + s * rng.uniform(-1, 1) for _ in range(n)]
    if w == 3:
        return [rng.choice([3.25, -7., .1, 1e8])] * n
    if w == 4:
        return [small(rng) for _ in range(n)]
    if w == 5:
        return [rng.gauss(0, 1) for _ in range(n)]
    if w == 6:
        return [math.ldexp(rng.uniform(-1, 1), rng.randint(-20, 20)) for _ in range(n)]
    return [anyval(rng) for _ in range(n)]


# ------------------------------------------------------- move statistics ----
NAMES = ["", "-", "x", "Worm head", "{}", "{0} {1}", "%s%d", "a=1 b = 2", "move 7", "Unknown", "\u00e9t\u00e9", "insert/remove", "n\tn"]


def newmoves(rng, k):
    return "new %d moves 0" % k if rng.random() < .2 else "new %d moves 1 %s" % (k, hx(rng.choice(NAMES)))


def prob(rng):
    return hd(rng.choice([0., 1., .5, .25, .1, 1 / 3., rng.random(), rng.random() ** 8, 1e-12]))


def moveop(rng, k):
    w = rng.random()
    if w < .35:
        return "propose %d" % k
    if w < .75:
        h = rng.choice("AARRI")
        return "decide %d %s" % (k, h) + ("" if h == "I" else " " + prob(rng))
    return "record %d %s %d %s" % (k, rng.choice("AARRI"), rng.randrange(6), prob(rng))


def validmoves(rng, k, n):
    ops, pend = [], False
    for _ in range(n):
        if pend:
            h = rng.choice("AARRI")
            ops.append("decide %d %s" % (k, h) + ("" if h == "I" else " " + prob(rng)))
            pend = False
        elif rng.random() < .6:
            ops.append("propose %d" % k)
            pend = True
        else:
            ops.append("record %d %s %d %s" % (k, rng.choice("AARRI"), rng.randrange(6), prob(rng)))
    return ops


def huge(rng, classes, tier, checks=(), copies=True):
    """counts of 2^31 to 2^64: in the driver an archive is given such a count"""
    S = []
    steps = "atbcms" if copies else "at"
    for c in classes:
        for n in range(4 if tier != "thorough" else 12):
            N = rng.choice([2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 3, 2**40 + 3, 2**53 + 1, 2**63 - 1, 2**63]) + rng.randrange(3)
            if n == 0:
                N = rng.choice([2**31, 2**32, 2**33]) + rng.randrange(3) - 1
            elif n == 1:  # cut to 32 bits, of either kind, it is another number
                N = rng.randrange(2**32 + 5, 2**40)
            elif n == 2:
                N = rng.randrange(2**31 + 5, 2**32)
            S.append(Stim("huge_%s%d" % (c, n), ["begin 0", "huge %s %d %s" % (c, N, "".join(rng.choice("a" + steps) for _ in range(6)) + steps)]))
    for c in checks:
        S.append(Stim("chk_full_%s" % c, ["begin 0"] + ["huge %s %d %s" % (c, 2**64 - d, "aaaatbca") for d in (1, 2, 3)]))
    return S


def gen_c14(rng, tier):
    S = huge(rng, ["moves", "rejected", "impossible"], tier, copies=False)
    for n in range(60 if tier != "thorough" else 600):
        ops = ["begin 0", newmoves(rng, 0), newmoves(rng, 1)]
        for _ in range(50):
            k = rng.randrange(2)
            w = rng.random()
            if w < .82:
                ops.append(moveop(rng, k))
            elif w < .88:
                ops.append("reset %d" % k)
            elif w < .94:
                ops.append("copy %s %d %d" % (rng.choice(["assign", "clone"]), k, 1 - k))
            else:
                ops += ["save 0 %s 1 %d" % (rng.choice(["text", "binary"]), k)] + [moveop(rng, k) for _ in range(rng.randrange(3))] \
                    + ["load 0 1 %d" % rng.randrange(2)]
            if rng.random() < .5:
                ops.append("query %d" % rng.randrange(2))
        ops += ["query 0", "query 1"]
        S.append(Stim("moves%d" % n, ops))
    return S


def moveconv(h, rng):
    """a TLC-generated sequence of calls"""
    ops = ["begin 0", newmoves(rng, 0)]
    for c in h:
        if c in "ARI":
            ops.append("decide 0 %s" % c + ("" if c == "I" else " " + prob(rng)))
        elif c == "P":
            ops.append("propose 0")
        elif c in "ari":
            ops.append("record 0 %s %d %s" % (c.upper(), rng.randrange(5), prob(rng)))
        elif c == "0":
            ops.append("reset 0")
        elif c == "S":
            ops += ["save 0 %s 1 0" % rng.choice(["text", "binary"]), "new 0 moves 0", "load 0 1 0"]
        elif c == "C":
            ops += ["copy clone 1 0", "new 0 moves 0", "copy assign 0 1"]
        ops.append("query 0")
    return ops


def gen_c15(rng, tier):
    S = huge(rng, ["moves", "rejected", "impossible"], tier, copies=False)
    for n in range(60 if tier != "thorough" else 500):
        ops = ["begin 0", newmoves(rng, 0)]
        long = rng.random() < .15
        for _ in range(rng.randint(2, 5)):
            ops.append("query 0")
            ops += validmoves(rng, 0, rng.choice([1, 2, 3, 7, 30]) if not long else 200)
            ops.append("query 0")
            if rng.random() < .3:
                ops.append(moveop(rng, 0))
            if rng.random() < .4:
                ops += ["reset 0", "query 0"]
        S.append(Stim("hist%d" % n, ops))
    return S


# --------------------------------------------------------------- C16, C17 ---
def gen_c16(rng, tier):
    S = huge(rng, ["kahan", "neumaier"], tier, ["kahan", "neumaier"], copies=False)
    for n in range(90 if tier != "thorough" else 900):
        c = rng.choice(["kahan", "neumaier"])
        track = rng.random() < .4
        ops = ["begin %d" % track, "new 0 %s" % c]
        for _ in range(rng.randint(1, 4)):
            xs = hard(rng, rng.choice([3, 8, 20, 60]))
            # exact sums of very different magnitudes are long integers
            w = rng.random()
            if w < .45:
                for i, x in enumerate(xs):
                    ops.append("add 0 %s" % hd(x))
                    if i < 4 or rng.random() < .15:
                        ops.append("query 0")
            elif w < .8:
                ops.append("range 0 %d %s" % (rng.randrange(5), vec(hd(x) for x in xs)))
            else:
                ops.append("cycle 0 %d %s" % (rng.choice([2, 10, 100]), vec(hd(x) for x in xs[:12])))
            ops.append("query 0")
            if rng.random() < .5:
                ops += ["reset 0", "query 0"]
        if track:  # the first values again, after a reset: as for a fresh object
            ops += ["reset 0", "new 1 %s" % c]
            for x in hard(rng, 6)[:10]:
                ops += ["add 0 %s" % hd(x), "add 1 %s" % hd(x), "query 0", "query 1"]
        S.append(Stim("sum%d" % n, ops))
    # many values
    for n, (c, reps, xs) in enumerate([("kahan", 10**6, [.1]), ("neumaier", 10**6, [.1]), ("kahan", 300000, [1., 1e-17, .3]),
                                       ("neumaier", 300000, [1e16, 1., -1e16]), ("kahan", 500000, [1e-3, 1e3]),
                                       ("neumaier", 200000, [.1, 1e8, -1e8, .7, 3.])]
                                      + [(rng.choice(["kahan", "neumaier"]), rng.choice([10**5, 10**6]), hard(rng, 8)[:6]) for _ in range(6)]):
        S.append(Stim("long%d" % n, ["begin 0", "new 0 %s" % c, "add 0 %s" % hd(rng.choice([0., 1., 1e6])),
                                     "cycle 0 %d %s" % (reps if tier != "thorough" else reps * 5, vec(hd(x) for x in xs)), "query 0"]))
    return S


def weights(rng, n, kinds=6):
    w = rng.randrange(kinds)
    if w == 5:  # of any scale
        e = rng.choice([-300, -200, -120, -70, -55, 60, 200])
        return [math.ldexp(x, e) for x in weights(rng, n, 5)]
    if w == 0:
        return [1.] * n
    if w == 1:
        return [float(rng.randint(1, 6)) for _ in range(n)]
    if w == 2:
        return [rng.choice([0., -0., -1., 1., 2., -.5]) for _ in range(n)]
    if w == 3:
        return [rng.uniform(.1, 2) for _ in range(n)]
    return [rng.uniform(0, 1) ** 4 for _ in range(n)]


def gen_c17(rng, tier):
    S = huge(rng, ["welford", "west", "integer"], tier, ["welford", "west", "integer"], copies=False)
    N = 1 if tier != "thorough" else 8
    for n in range(70 * N):
        ops = ["begin %d" % (rng.random() < .3), "new 0 welford"]
        for _ in range(rng.randint(1, 3)):
            xs = offset(rng, rng.choice([1, 2, 3, 10, 40, 120]))
            if rng.random() < .4:
                ops.append("range 0 %d %s" % (rng.randrange(5), vec(hd(x) for x in xs)))
            else:
                for i, x in enumerate(xs):
                    ops.append("add 0 %s" % hd(x))
                    if i < 4 or rng.random() < .1:
                        ops.append("query 0")
            ops.append("query 0")
            if rng.random() < .5:
                ops += ["reset 0", "query 0"]
        S.append(Stim("%swelford%d" % (rng.choice(["", "", "chk_"]), n), ops))
    for n in range(60 * N):
        ops = ["begin %d" % (rng.random() < .3), "new 0 west", "query 0"]
        for _ in range(rng.randint(1, 3)):
            m = rng.choice([1, 2, 3, 8, 30, 80])
            for i, (x, w) in enumerate(zip(offset(rng, m), weights(rng, m))):
                ops.append("addw 0 %s %s" % (hd(x), hd(w)))
                if i < 4 or rng.random() < .1:
                    ops.append("query 0")
            ops.append("query 0")
            if rng.random() < .5:
                ops += ["reset 0", "query 0"]
        S.append(Stim("%swest%d" % (rng.choice(["", "", "chk_"]), n), ops))
    for n in range(60 * N):
        chk = rng.random() < .5
        ops = ["begin %d" % (rng.random() < .3), "new 0 integer", "query 0"]
        s = q = 0
        mx = rng.choice([3, 100, 10**4, 10**6, 2**31, 3 * 10**9])
        for _ in range(rng.choice([2, 5, 20, 60])):
            x = rng.randint(-mx, mx)
            if chk and rng.random() < .3:
                x = rng.choice([-2**63, TOP, 2**62, 3037000499, 3037000500, -3037000499, -3037000500, 2**31, 0, 1, -1, -2**63 + 1])
            if chk and rng.random() < .3:  # at the edge of what still fits
                r = math.isqrt(TOP - q)
                x = rng.choice([1, -1]) * (r + rng.randint(-1, 1))
            if q + x * x <= TOP and -2**63 <= s + x <= TOP:
                s, q = s + x, q + x * x
            elif not chk:
                continue
            ops.append("addi 0 %d" % x)
            if rng.random() < .4:
                ops.append("query 0")
            if rng.random() < .06:
                ops.append("reset 0")
                s = q = 0
        ops.append("query 0")
        S.append(Stim("%sint%d" % ("chk_" if chk else "", n), ops))
    # many values: sums that fit, products of sums that do not
    for n in range(6 * N):
        m = rng.choice([100, 250])
        mx = math.isqrt(TOP // m) - 1
        mx = rng.choice([mx, mx, 10**7])
        ops = ["begin 0", "new 0 integer"]
        sign = rng.choice([(1,), (-1,), (-1, 1)])
        for i in range(m):
            ops.append("addi 0 %d" % (rng.choice(sign) * (mx - rng.choice([0, 1, rng.randrange(mx)]))))
            if rng.random() < .05:
                ops.append("query 0")
        S.append(Stim("%smany%d" % (rng.choice(["", "chk_"]), n), ops + ["query 0"]))
    # the edges one by one
    for n, xs in enumerate([[3037000499], [3037000500], [-3037000500], [TOP], [-2**63], [2**31] * 2, [2**31, 2**31, 0, 1], [2147483648, -2147483648, 1, 3, 5],
                            [3037000499, 77936, 77937, 2, 1, 0], [0, TOP, 1], [-2**63 + 1, -1], [1] * 5 + [3037000499, 3037000498, 100000]]):
        ops = ["begin 0", "new 0 integer"]
        for x in xs:
            ops += ["addi 0 %d" % x, "query 0"]
        S.append(Stim("chk_edge%d" % n, ops + ["reset 0", "addi 0 2", "addi 0 4", "query 0"]))
    return S


def plain_build(s):
    return not s.id.startswith("chk_")


def check_build(s):
    return s.id.startswith("chk_")


# ------------------------------------------------------------- histograms ---
def histop(rng, k, n, maxn=14):
    """(operation, number of bins after it)"""
    w = rng.random()
    if w < .55 and n > 0:
        op, i = "hadd", rng.randrange(n)
    elif w < .85:
        op, i = "hforce", (n + rng.randint(0, 3) if rng.random() < .4 and n < maxn else rng.randrange(max(1, n)))
        n = max(n, i + 1)
    elif w < .93:
        m = rng.randint(0, maxn)
        return "hresize %d %d" % (k, m), m
    else:
        return "reset %d" % k, n
    t = rng.choice(["unit", "unit", "double", "double", "float", "int", "long"])
    v = ""
    if t == "double":
        v = " " + hd(anyval(rng))
    elif t == "float":
        v = " " + hd(rng.randint(-999, 999) / rng.choice([1, 4, 64]))
    elif t == "int":
        v = " " + hd(rng.randint(-10**6, 10**6))
    elif t == "long":
        v = " " + hd(rng.randint(-2**52, 2**52))
    return "%s %d %d %s%s" % (op, k, i, t, v), n


def histquery(rng, k, n):
    return "query %d %s" % (k, " ".join(str(rng.randrange(n)) for _ in range(min(n, 2))))


def gen_c18(rng, tier):
    S = huge(rng, ["hist"], tier, copies=False)
    for n in range(80 if tier != "thorough" else 800):
        nb = rng.choice([-1, 0, 1, 2, 3, 5, 12])
        ops = ["begin 0", "new 0 hist %d" % nb]
        nb = max(nb, 0)
        if rng.random() < .3:
            nb = rng.randint(1, 8)
            ops.append("hresize 0 %d" % nb)
        ops.append(histquery(rng, 0, nb))
        for _ in range(rng.choice([10, 40])):
            o, nb = histop(rng, 0, nb)
            ops.append(o)
            if rng.random() < .5:
                ops.append(histquery(rng, 0, nb))
        ops.append(histquery(rng, 0, nb))
        S.append(Stim("hist%d" % n, ops))
    S.append(Stim("far", ["begin 0", "new 0 hist 2", "hadd 0 1 double 0x1p+1", "hforce 0 3000 unit", "query 0 1 3000", "hresize 0 2", "query 0 1", "hresize 0 5", "query 0 4"]))
    # bins that are far apart, beyond 2^16
    for n in range(6 if tier != "thorough" else 40):
        nb = rng.choice([0, 1, 3, 65535, 65536])
        ops, m = [], rng.choice([4, 10, 16])
        n0, last = nb, []
        for _ in range(m):
            w = rng.random()
            if w < .45:
                i = rng.choice([255, 256, 65534, 65535, 65536, rng.randint(65536, 140000), rng.randrange(300), rng.randrange(140000)])
                ops.append("force %d %s" % (i, hd(small(rng))))
                nb = max(nb, i + 1)
                last.append(i)
            elif w < .85 and nb:
                i = rng.choice([rng.randrange(nb), nb - 1] + [(x + d) % nb for x in last[-3:] for d in (0, 0, 65536)])
                ops.append("add %d %s" % (i, hd(small(rng))))
                last.append(i)
            elif w < .95 or not nb:
                nb = rng.choice([65536, 65537, rng.randint(1, 150000), nb + 1])
                ops.append("resize %d" % nb)
            else:
                ops.append("reset 0")
        S.append(Stim("apart%d" % n, ["begin 0", "hfar %d %d %s" % (n0, m, " ".join(ops))]))
    return S


# ------------------------------------------------------ observable groups ---
SKEYS = ["E", "energy", "En", "e", "mag", "Mag", "m2", "A", "Z", "z", "x y", "10", "9", "{}", "n_bar", "\u00b5", "", "Count", "E2"]


def keys(rng, kind, n):
    return [rng.randint(-20, 120) for _ in range(n)] if kind == "int" else [rng.choice(SKEYS) for _ in range(n)]


def kv(kind, ks):
    return vec(ks if kind == "int" else [hx(k) for k in ks])


def karg(kind, k):
    return str(k) if kind == "int" else hx(k)


def newgroup(rng, k, kind, ks, f=None):
    return "new %d group %s %d %d %s" % (k, kind, rng.randrange(3) if f is None else f, rng.randrange(2), kv(kind, ks))


def groupval(rng):
    return rng.choice([small(rng), rng.gauss(0, 1), anyval(rng), 10. ** rng.randint(-30, 30), 0., .5, 1e5 - 1e-6, 9.9999999999999])


def gen_c19(rng, tier):
    S = huge(rng, ["group"], tier, copies=False)
    for n in range(60 if tier != "thorough" else 600):
        kind = rng.choice(["int", "string"])
        have = {}
        ops = ["begin 0"]
        for k in range(2):
            ks = keys(rng, kind, rng.randint(1, 5))
            have[k] = set(ks)
            ops.append(newgroup(rng, k, kind, ks, rng.randrange(2)))
        for _ in range(40):
            k = rng.randrange(2) if rng.random() < .3 else 0
            w = rng.random()
            if w < .6:
                key = rng.choice(sorted(have[k])) if rng.random() < .9 else keys(rng, kind, 1)[0]
                ops.append("measure %d %s %s" % (k, karg(kind, key), hd(groupval(rng))))
            elif w < .7:
                ks = keys(rng, kind, rng.randint(1, 3))
                have[k] |= set(ks)
                ops.append("addkeys %d %d %s" % (k, rng.randrange(2), kv(kind, ks)))
            elif w < .78:
                ops.append("headers %d" % k)
            elif w < .96:
                ops.append("print %d %d" % (k, rng.choice([-1, -1, 0, 1, 3, 6, 10, 12, 15, 16, 17, 18, 20, 25, 40])))
            else:
                ops.append("look %d" % rng.randrange(3))
        ops += ["print 0 -1", "print 1 12", "look 0", "look 1"]
        S.append(Stim("group%d" % n, ops))
    return S


# --------------------------------------------------------------- C20, C21 ---
CLASSES = ["kahan", "neumaier", "welford", "west", "integer", "hist", "moves", "group"]


class Object:
    """operations for an object of a class; clones share the choices"""

    def __init__(self, rng, c, kind="int"):
        self.rng, self.c, self.kind, self.n, self.ks = rng, c, kind, 0, set()
        self.style = rng.randrange(4)
        self.queue = []

    def val(self):
        """a value; in one style these are sequences whose sums need all of the state"""
        rng = self.rng
        if self.style < 2:
            return anyval(rng) if self.style == 0 else rng.choice(hard(rng, 5))
        if not self.queue:
            if self.style == 2:
                self.queue = hard(rng, rng.choice([3, 6, 9]))
            else:  # a large value comes and goes
                e = 2. ** rng.choice([53, 54, 60, 100, 200])
                self.queue = [e] + [rng.choice([anyval(rng), rng.uniform(-1, 1), 1., 1 / 3.]) for _ in range(rng.randint(1, 5))] + [-e]
        return self.queue.pop(0)

    def new(self, k):
        rng = self.rng
        if self.c == "hist":
            self.n = rng.randint(0, 5)
            return "new %d hist %d" % (k, self.n)
        if self.c == "moves":
            return newmoves(rng, k)
        if self.c == "group":
            ks = keys(rng, self.kind, rng.randint(1, 4))
            self.ks = set(ks)
            return newgroup(rng, k, self.kind, ks)
        return "new %d %s" % (k, self.c)

    def op(self):
        """an operation with the register left open"""
        rng = self.rng
        c = self.c
        if c in ("kahan", "neumaier"):
            w = rng.random()
            if w < .07:
                return "reset %d"
            x = self.val()
            if w < .15:
                return "range %%d %d %s" % (rng.randrange(5), vec(hd(anyval(rng)) for _ in range(rng.randint(0, 4))))
            return "add %%d %s" % hd(x)
        if c == "welford":
            return "reset %d" if rng.random() < .07 else "add %%d %s" % hd(offset(rng, 1)[0])
        if c == "west":
            return "reset %d" if rng.random() < .07 else "addw %%d %s %s" % (hd(offset(rng, 1)[0]), hd(rng.choice([1., 2., .5, .1, rng.random(), 0., -1.])))
        if c == "integer":
            return "reset %d" if rng.random() < .07 else "addi %%d %d" % rng.randint(-1000, 1000)
        if c == "hist":
            o, self.n = histop(rng, 0, self.n, 7)
            p = o.split(" ", 2)
            return p[0] + " %d" + (" " + p[2] if len(p) > 2 else "")
        if c == "moves":
            o = "reset 0" if rng.random() < .06 else moveop(rng, 0)
            p = o.split(" ", 2)
            return p[0] + " %d" + (" " + p[2] if len(p) > 2 else "")
        w = rng.random()
        if w < .75:
            key = rng.choice(sorted(self.ks)) if rng.random() < .93 else keys(rng, self.kind, 1)[0]
            return "measure %%d %s %s" % (karg(self.kind, key), hd(groupval(rng)))
        if w < .85:
            ks = keys(rng, self.kind, rng.randint(1, 2))
            self.ks |= set(ks)
            return "addkeys %%d %d %s" % (rng.randrange(2), kv(self.kind, ks))
        if w < .9:
            return "headers %d"
        return "print %%d %d" % rng.choice([-1, 5, 15])

    def query(self, k):
        if self.c == "group":
            return None
        if self.c == "hist":
            return histquery(self.rng, k, self.n)
        return "query %d" % k

    def final(self, k):
        return "print %d 16" % k if self.c == "group" else self.query(k)

    def fork(self):
        f = Object(self.rng, self.c, self.kind)
        f.n, f.ks, f.style, f.queue = self.n, set(self.ks), self.style, list(self.queue)
        return f


def twin(ob, regs, n, query_each=.4):
    """the same n operations on all of regs, which must answer the same"""
    ops = []
    if ob.c == "group":
        body = [ob.op() for _ in range(n)]
        for k in regs:
            ops += [b % k for b in body]
        prec = ob.rng.choice([15, 16, 17])
        for k in regs:
            ops.append("print %d %d" % (k, prec))
        return ops
    for _ in range(n):
        b = ob.op()
        ops += [b % k for k in regs]
        if ob.rng.random() < query_each:
            q = ob.query(0).split(" ", 2)
            ops += ["query %d%s" % (k, " " + q[2] if len(q) > 2 else "") for k in regs]
    q = ob.query(0).split(" ", 2)
    ops += ["query %d%s" % (k, " " + q[2] if len(q) > 2 else "") for k in regs]
    return ops


def gen_c20(rng, tier):
    S = huge(rng, CLASSES, tier)
    n = 0
    for rep in range(10 if tier != "thorough" else 100):
        for c in CLASSES:
            kind = rng.choice(["int", "string"])
            ob = Object(rng, c, kind)
            ops = ["begin 1", ob.new(0)]
            # another one with the same history, which is never saved
            shadow = rng.random() < .6
            both = [0, 8] if shadow else [0]
            if shadow:
                ops.append("new 8" + ops[-1][5:])
            for _ in range(rng.choice([0, 1, 2, 5, 12])):
                b = ob.op()
                ops += [b % k for k in both]
            if c != "group":
                ops.append(ob.query(0))
            other = Object(rng, c, kind)
            ops.append(other.new(1))
            for _ in range(rng.choice([0, 1, 4])):  # a used target
                ops.append(other.op() % 1)
            third = Object(rng, c, kind)
            ops.append(third.new(2))
            fmt = rng.choice(["text", "binary"])
            w = rng.random()
            if w < .4:
                ops += ["save 0 %s 1 0" % fmt, "load 0 1 1"]
                ops += twin(ob, both + [1], rng.choice([1, 3, 6, 10]))
                ops += ["load 0 1 2"]  # again, from the past
            elif w < .7:  # resumed after the original went on, into itself too
                mid = ob.fork()
                ops += ["save 0 %s 1 0" % fmt]
                later = [mid.op() % 0 for _ in range(rng.randint(1, 4))]
                ops += later
                if c != "group":
                    ops.append(mid.query(0))
                ops += ["load 0 1 0", "load 0 1 1"]
                ops += twin(ob, both + [1], rng.choice([1, 3, 6, 10]))
            else:  # several objects in one checkpoint
                two = Object(rng, c, kind)
                ops += [two.new(3)] + [two.op() % 3 for _ in range(rng.randint(0, 3))]
                ops += [two.new(4), "save 0 %s 3 3 0 3" % fmt, "load 0 3 2 1 4"]
                two2 = two.fork()
                ops += twin(ob, both + [1], rng.choice([1, 3]))
                if c == "hist":
                    # number of bins of register 3 is that of its own history
                    two.n = two2.n = 0
                    ops += ["query 3", "query 2", "query 4"]
                elif c == "group":
                    ops += ["print 3 16", "print 2 16", "print 4 16"]
                else:
                    ops += twin(two, [3, 2, 4], 2)
            S.append(Stim("ck_%s%d" % (c, n), ops))
            n += 1
    return S


def gen_c21(rng, tier):
    S = huge(rng, CLASSES, tier)
    n = 0
    for rep in range(10 if tier != "thorough" else 100):
        for c in CLASSES:
            kind = rng.choice(["int", "string"])
            ob = Object(rng, c, kind)
            ops = ["begin 1", ob.new(0)]
            for _ in range(rng.choice([0, 1, 2, 5, 12])):
                ops.append(ob.op() % 0)
            other = Object(rng, c, kind)
            ops.append(other.new(1))
            for _ in range(rng.choice([0, 1, 4])):
                ops.append(other.op() % 1)
            w = rng.random()
            how = rng.choice(["assign", "clone"])
            if w < .45:
                ops.append("copy %s 1 0" % how)
                # one goes on alone: the other stays; then the other catches up
                a, b = rng.choice([(0, 1), (1, 0)])
                body = []
                for _ in range(rng.randint(1, 6)):
                    body.append(ob.op())
                    ops.append(body[-1] % a)
                if c != "group":
                    for k in (0, 1):
                        ops.append("query %d" % k)
                ops += [x % b for x in body]
                ops += twin(ob, [0, 1], rng.choice([0, 2]))
            elif w < .75:  # moved: a copy kept for comparison
                third = Object(rng, c, kind)
                ops += [third.new(2), "copy %s 2 0" % how, "copy %s 1 0" % rng.choice(["take", "steal"])]
                ops += twin(ob, [1, 2], rng.choice([1, 4]))
                ops += ["copy assign 0 2"]  # the moved-from object takes a new value
                ops += twin(ob, [0, 1, 2], 1)
            elif w < .85:
                ops += ["copy assign 0 0"]
                ops += twin(ob, [0], 2) + ["copy clone 1 0"] + twin(ob, [0, 1], 2)
            else:
                third = Object(rng, c, kind)
                ops += [third.new(2), "copy clone 2 0", "swap 0 1"]
                ops += twin(ob, [1, 2], rng.choice([1, 3]))
            S.append(Stim("cp_%s%d" % (c, n), ops))
            n += 1
    return S


def ckconv(h, rng):
    """TLC: <<class, mode, format, ...>> with numbered choices of operations"""
    c, mode, fmt = h[0], h[1], h[2]
    ob = Object(random.Random("conv" + c), c, "string")
    pre = {"kahan": ["add %d 0x1p+53", "add %d 0x1p+0", "add %d 0x1.999999999999ap-4"],
           "neumaier": ["add %d 0x1p+0", "add %d 0x1.4p+200", "add %d -0x1.4p+200"],
           "welford": ["add %d 0x1.999999999999ap-4", "add %d 0x1p+3", "add %d -0x1.8p+0"],
           "west": ["addw %d 0x1.999999999999ap-4 0x1p-1", "addw %d 0x1p+3 0x1.999999999999ap+1", "addw %d 0x1.4p+3 0x0p+0"],
           "integer": ["addi %d 3", "addi %d -70000", "addi %d 11"],
           "hist": ["hforce %d 1 double 0x1.999999999999ap-4", "hforce %d 2 unit", "hresize %d 3"],
           "moves": ["propose %d", "decide %d A 0x1.999999999999ap-4", "decide %d R 0x1p-2"],
           "group": ["measure %d 45 0x1.999999999999ap-4", "measure %d 46 0x1p+60", "addkeys %d 0 1 47"]}[c]
    new = {"hist": "new %d hist 1", "moves": "new %d moves 0", "group": "new %d group string 0 0 2 46 45"}.get(c, "new %%d %s" % c)
    ops = ["begin 1", new % 0, new % 1]
    k = 3
    while h[k] != "|":
        ops.append(pre[int(h[k])] % 0)
        k += 1
    if mode == "fresh":
        pass
    elif mode == "used":
        ops += [p % 1 for p in pre]
    q = (lambda r: []) if c == "group" else (lambda r: ["query %d" % r])
    third = []
    if fmt in ("text", "binary"):
        ops += [new % 2] + [pre[int(x)] % 2 for x in h[3:k]]
        ops += ["save 0 %s 1 0" % fmt, "load 0 1 1"]
        third = [2]
    elif fmt in ("take", "steal", "swap"):
        # another object with the same history stands for the one moved from
        ops += [new % 2] + [pre[int(x)] % 2 for x in h[3:k]]
        ops += ["swap 0 1"] if fmt == "swap" else ["copy %s 1 0" % fmt, new % 0]
        ops += q(0) + q(1) + q(2)
        for x in h[k + 1:]:
            for _ in range(3):
                ops += [pre[int(x)] % 2] + q(1) + [pre[int(x)] % 1, pre[int(x)] % 0] + q(2) + q(1)
        ops += ["print 1 16", "print 2 16", "print 0 16"] if c == "group" else ["reset 2"] + q(1) + q(0)
        return ops
    else:
        ops += ["copy %s 1 0" % fmt]
    ops += q(0) + q(1)
    for x in h[k + 1:]:
        for _ in range(3):
            ops += [pre[int(x)] % 0] + q(1) + [pre[int(x)] % 1] + q(0) + q(1)
            for y in third:
                ops += [pre[int(x)] % y] + q(y)
    ops += ["print %d 16" % y for y in [0, 1] + third] if c == "group" else ["reset 0"] + q(1) + q(0) + ["reset 1"] + q(1)
    return ops


OBS = {"query": ["a", "rel"], "propose": ["thrown"], "decide": ["thrown"], "record": ["thrown", "acc", "rej", "imp", "status", "prob"],
       "measure": ["thrown"], "headers": ["lines"], "print": ["lines"], "look": ["lines"], "addi": ["thrown"], "huge": ["steps"], "range": ["same"]}
LIB = ["-lboost_serialization"]
BUILD = [dict(driver="drv_objects", libs=LIB)]
CHK = dict(driver="drv_objects", name="drv_objects_checks", defs=["BWSL_ACCUMULATORS_CHECKS"], libs=LIB)
CHECKS = {
    "C14": dict(gen=gen_c14, tlcgen=[("Gen_Moves", "Gen_Moves")], tlcgen_thorough=[("Gen_Moves", "Gen_Moves_thorough")], tlcconv=moveconv,
                mc=[("MC_Moves", "MC_Moves")]),
    "C15": dict(gen=gen_c15, mc=[("MC_Moves", "MC_Moves")], tlcgen=[("Gen_Moves", "Gen_Moves_valid")], tlcconv=moveconv),
    "C16": dict(gen=gen_c16, build=BUILD + [CHK], variants=[plain_build, check_build], mc=[("MC_Sums", "MC_Sums")], mc_thorough=[("MC_Sums", "MC_Sums_thorough")]),
    "C17": dict(gen=gen_c17, mc=[("MC_Moments", "MC_Moments")],
                build=BUILD + [CHK],
                variants=[plain_build, check_build]),
    "C18": dict(gen=gen_c18, mc=[("MC_Hist", "MC_Hist")]),
    "C19": dict(gen=gen_c19, mc=[("MC_Group", "MC_Group")]),
    "C20": dict(gen=gen_c20, tlcgen=[("Gen_Resume", "Gen_Resume")], tlcconv=ckconv, mc=[("MC_Moves", "MC_Moves")]),
    "C21": dict(gen=gen_c21, tlcgen=[("Gen_Resume", "Gen_Copies")], tlcconv=ckconv, mc=[("MC_Moves", "MC_Moves")]),
}
for _c in CHECKS.values():
    _c.setdefault("build", BUILD)
    _c.update(spec="Trace_Objects", obs=OBS)
