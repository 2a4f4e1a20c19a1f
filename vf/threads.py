"""C32, C33: threads with objects of their own, and threads that query the
same objects.  The drivers are built with the ThreadSanitizer."""
import re
from . import grid, lattice, rational, objects, utils, generic
from .core import *

LIB = ["-lboost_serialization"]
SPECS = {"grid": "Trace_Grid", "lattice": "Trace_Lattice", "rational": "Trace_Rational", "objects": "Trace_Objects",
         "utils": "Trace_Utils", "generic": "Trace_Generic", "rng": "Trace_Random"}
MODS = {"grid": (grid, ["C01", "C02", "C03", "C04"]), "lattice": (lattice, ["C05", "C06", "C07", "C08", "C09", "C10"]),
        "rational": (rational, ["C11", "C12", "C13"]), "objects": (objects, ["C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"]),
        "utils": (utils, ["C22", "C23", "C24", "C25", "C26", "C27", "C29"]), "generic": (generic, ["C30", "C31"]), "rng": (utils, ["C28"])}
SLOW = ("huge", "cycle", "dump", "chance")


def slow(op):
    w = op.split()
    return w[0] in SLOW or (w[0] == "skip" and int(w[2]) > 2000) or (w[0] == "space" and w[2] != "lin" and int(w[6]) > 12)


def pool(rng, driver, per):
    """histories of the other properties, to be executed by threads"""
    mod, ids = MODS[driver]
    res = []
    for pid in ids:
        c = mod.CHECKS[pid]
        ss = [s for s in c["gen"](rng, "quick") if not re.match("known:|chk_|dbg_|big|large|long|vast|huge", s.id)
              and not any(map(slow, s.ops)) and sum(len(o) for o in s.ops) < 12000]
        res += ss if per is None else rng.sample(ss, min(per, len(ss)))
    rng.shuffle(res)
    return res


def sort_(op):
    """what is called (the operation, and the kind or function it is about)"""
    w = op.split()
    return (w[0],) + tuple(x for x in w[1:4] if re.match("[a-z_]{2,}$", x))[:1]


def alike(rng, driver, ss):
    """every thread does the same sort of thing: one history each of those
    that do it, or the same one (the same types, then)"""
    by = {}
    for s in ss:
        for i, o in reversed(list(enumerate(s.ops))):
            by.setdefault(sort_(o), {})[s.id] = s.ops[:max(i + 10, 30)]
    S = []
    for k, (w, them) in enumerate(sorted(by.items())):
        them = list(them.values())
        for how in (0, 1):
            n = rng.choice([2, 3])
            progs = [rng.choice(them)] * n if how == 0 else rng.sample(them, n) if len(them) >= n else []
            progs = [p for p in progs if len(p) < 120]
            if len(progs) > 1:
                S.append(Stim("alike%d_%s%d_%s" % (how, driver, k, "_".join(w)), ["par %d" % len(progs)] + [o for i, p in enumerate(progs) for o in enumerate_ops(i, p)] + ["join"]))
    return S


def cut(ops, rng, most):
    """(a beginning of a history is a history)"""
    return ops if len(ops) <= most else ops[:most]


def inturn(rng, programs):
    """some interleaving"""
    ps = [list(enumerate_ops(k, p)) for k, p in enumerate(programs)]
    res = []
    while any(ps):
        p = rng.choice([p for p in ps if p])
        for _ in range(rng.choice([1, 1, 1, 2, 5])):
            if p:
                res.append(p.pop(0))
    return res


def enumerate_ops(k, p):
    return ["@%d %s" % (k, o) for o in p]


def own(driver):
    """threads with objects of their own: at the same time, and in turns"""
    def gen(rng, tier):
        big = tier == "thorough"
        per = {"lattice": 12, "rational": 24, "generic": 24, "rng": 24}.get(driver, 16) * (1 if not big else 5)
        every = pool(rng, driver, None)
        src = rng.sample(every, min(len(every), per * len(MODS[driver][1])))
        S, k = [], 0
        while src:
            n = rng.choice([2, 2, 3, 4])
            mine, src = src[:n], src[n:]
            if len(mine) == 1:
                break
            if rng.random() < .25:  # the same thing by all of them
                mine = [mine[0]] * n
            progs = [cut(s.ops, rng, 60) for s in mine]
            if k % 3 == 2:
                ops = ["turns %d" % len(progs)] + inturn(rng, progs)
            else:
                ops = ["par %d" % len(progs)] + [o for i, p in enumerate(progs) for o in enumerate_ops(i, p)]
            S.append(Stim("own_%s%d" % (driver, k), ops + ["join"]))
            k += 1
        for _ in range(1 if not big else 3):
            S += alike(rng, driver, every)
        return S
    return gen


def handed(driver):
    """the objects of one history go from thread to thread"""
    def gen(rng, tier):
        S = []
        for k, s in enumerate(pool(rng, driver, 3 if tier != "thorough" else 30)):
            n = rng.choice([2, 3])
            S.append(Stim("hand_%s%d" % (driver, k), ["turns %d" % n] + ["@%d %s" % (rng.randrange(n), o) for o in cut(s.ops, rng, 60)] + ["join"]))
        return S
    return gen


# --------------------------------------------------------- shared objects ----
def q_grid(rng):
    L, n = grid.small(rng, 40, maxdim=3, maxext=6)
    closed = int(rng.random() < .7)
    main = ["start %d %s %d" % (closed, vec(L), rng.randrange(n))]
    site = lambda: rng.randrange(n)

    def query():
        c = [rng.randint(-3, 9) for _ in L]
        return rng.choice(["table", "jumptable", "coords %d" % site(), "ongrid " + vec(c),
                           "jump %d %d" % (site(), site()), "gridpair %d %d" % (site(), site()),
                           "winding " + vec([x * rng.randint(-3, 3) for x in L])]
                          + (["maptable", "mapped %d %d" % (site(), site()), "unmapped %d %d" % (site(), site()), "enforce " + vec(c), "latenforce " + vec(c)] if closed else []))
    return main, lambda k: [query() for _ in range(12)], []


def q_lattice(rng):
    cmd, b, L = rng.choice(list(lattice.lattices(rng, 1, 1, 2, 16, 5)))
    n = grid.prod(L)
    closed = rng.random() < .7 and lattice.fits(b, L, 4000)
    main = [cmd, "lattice %d %s" % (closed, vec(L))] + (["momenta"] if closed else [])
    site = lambda: rng.randrange(n)

    def query():
        c, d = [rng.randint(-5, 5) for _ in L], [rng.randint(-5, 5) for _ in L]
        sk = "sk 0 %s %s %s 0" % ((rng.choice(["int", "double"]), vec(rng.choice([0, 1, 1, -1, 2]) for _ in range(n)), hd(rng.choice([1., .5]))))
        return rng.choice(["neighbors", "positions", "position %d" % site(), "vec %d %d" % (site(), site()), "vec %d %d" % (site(), site()),
                           "vec %d %d" % (site(), site()), "nbof %d %s" % (site(), vec([site(), site()])), "real " + vec(c), "recip " + vec(c),
                           "between %s %s" % (vec(c), vec(d)), "step %s %d" % (vec(c), rng.randrange(2 * len(b.nb))),
                           "save %s %d" % (rng.choice(["positions", "distances", "momenta", "pairs"]), rng.randrange(2))]
                          + ([sk, sk, sk, "momenta"] if closed else []))
    return main, lambda k: [query() for _ in range(10)], []


def q_objects(rng):
    c = rng.choice(["kahan", "neumaier", "welford", "west", "integer", "hist", "moves", "group"])
    main, q = ["begin 0"], ["query 0"]
    if c in ("kahan", "neumaier", "welford"):
        main += ["new 0 " + c] + ["add 0 " + hd(objects.small(rng)) for _ in range(rng.randrange(1, 8))]
    elif c == "west":
        main += ["new 0 west"] + ["addw 0 %s %s" % (hd(objects.small(rng)), hd(rng.choice([1., 2., .5]))) for _ in range(rng.randrange(1, 8))]
    elif c == "integer":
        main += ["new 0 integer"] + ["addi 0 %d" % rng.randint(-99, 99) for _ in range(rng.randrange(1, 8))]
    elif c == "hist":
        main += ["new 0 hist 3"] + ["hadd 0 %d double %s" % (rng.randrange(3), hd(objects.small(rng))) for _ in range(rng.randrange(8))]
        q = ["query 0 0 1", "query 0 2 1", "query 0 1 2"]
    elif c == "moves":
        main += ["new 0 moves 1 " + hx("Worm")] + [objects.moveop(rng, 0) for _ in range(6)]
    else:
        main += ["new 0 group string 0 0 " + vec(hx(x) for x in ["E", "M"][:rng.randint(1, 2)])] + ["measure 0 45 " + hd(1.5)] * rng.randrange(3)
    own_ = lambda k: [] if c == "group" else [x.replace("query 0", "query %d" % k) for x in q]
    for k in (1, 2, 3):  # (so that no register is new to the driver)
        main += ["copy clone %d 0" % k, "save %d text 1 0" % k]

    def prog(k):
        k += 1
        ops = []
        for _ in range(8):
            ops += rng.choice([[rng.choice(q)] if c != "group" else [], ["copy %s %d 0" % (rng.choice(["clone", "assign"]), k)] + own_(k)[:1],
                               ["save %d %s 1 0" % (k, rng.choice(["text", "binary"])), "load %d 1 %d" % (k, k)] + own_(k)[:1]])
        return ops
    return main, prog, []


def q_rational(rng):
    T = rng.choice(["long", "int"])
    v = lambda: "%d %d" % (rng.randint(-40, 40), rng.choice([1, 2, 3, 5, 8, -4]))
    main = ["type %s 5" % T] + ["make %d %s" % (k, v()) for k in range(5)]
    def prog(k):
        k += 2
        return [rng.choice(["rel 0 1", "rel 1 0", "reli 0 %d" % rng.randint(-5, 5), "text 0", "text 1", "copy 0 %d 0" % k,
                            "op %d %s 0 1" % (k, rng.choice("+-*"))]) for _ in range(12)]
    return main, prog, []


def q_generic(rng):
    kinds = ["move", "prob", "parse", "overflow", "enum", "rational", "sequence"]
    kind = rng.choice(kinds)
    main = [generic.failop(rng, 0, kind)] + ["copy %d 0 clone" % k for k in (1, 2, 3)]

    def prog(k):
        k += 1
        cmp = lambda: "compare %s %s %s" % (rng.choice(generic.KINDS), vec([rng.randint(-3, 3), rng.randint(0, 1)]), vec([rng.randint(-3, 3), rng.randint(0, 1)]))
        return [o for _ in range(8) for o in rng.choice([["what 0"], ["copy %d 0 clone" % k, "what %d" % k], ["copy %d 0 throw" % k, "what %d" % k],
                                                         ["copy %d 0 assign" % k], [cmp()], [generic.failop(rng, k, kind)]])]
    return main, prog, []


def q_rng(rng):
    bits = rng.choice([32, 64])
    main = ["seed %d %d %d" % (k, bits, rng.randrange(1, 1000)) for k in range(4)] + ["draw 0 %d" % rng.randrange(3)] \
        + ["save %d text 1 0" % k for k in (1, 2, 3)]

    def prog(k):
        k += 1
        return [o for _ in range(4) for o in rng.choice([["save %d %s 1 0" % (k, rng.choice(["text", "binary"])), "load %d 1 %d" % (k, k), "draw %d 2" % k],
                                                         ["copy %d 0" % k, "draw %d 3" % k]])]
    return main, prog, []


def q_utils(rng):
    main = ["enum %d" % rng.randrange(9), "space 0 lin double %s %s 5 44" % (hd(rng.choice([0., -1.])), hd(rng.choice([1., 2.5])))]
    main += ["copyspace %d 0" % k for k in (1, 2, 3)] + ["write 0 1 65 %d" % rng.choice([0, 10, 5000]), "write 1 1 65 %d" % rng.choice([10, 5000])]
    base = [s for s in pool(rng, "utils", 2) if s.ops[0].split()[0] in ("fn", "vec", "search", "choose", "approx")]

    def prog(k):
        k += 1
        ops = []
        for _ in range(8):
            ops += rng.choice([["look 0"], ["tostring %d" % rng.randrange(2)], ["fromstring %s 0" % hx(rng.choice(["x", "Apple", "a", "abc", "Only", ""]))],
                               ["copyspace %d 0" % k, "collect %d 9" % k, "step %d pre" % k], ["copyspace %d 0" % k, "samestep 0 %d" % k],
                               ["compare 0 1"], rng.choice(base).ops[:4] if base else []])
        return ops
    return main, prog, []


ONE = {"kahan": lambda r: "add %d " + hd(objects.small(r)), "neumaier": lambda r: "add %d " + hd(objects.small(r)), "welford": lambda r: "add %d " + hd(objects.small(r)),
       "west": lambda r: "addw %%d %s %s" % (hd(objects.small(r)), hd(r.choice([1., 2., .5]))), "integer": lambda r: "addi %%d %d" % r.randint(-99, 99),
       "hist": lambda r: "hadd %%d %d double %s" % (r.randrange(2), hd(objects.small(r))), "moves": lambda r: "record %%d %s 0 %s" % (r.choice("AR"), hd(.5))}
MAKE = {"hist": "new %d hist 2", "moves": "new %d moves 1 41"}


def handconv(h, rng):
    """objects go from thread to thread in turns; then all threads go on with what they may"""
    cs = [rng.choice(sorted(ONE)) for _ in range(2)]
    ask = lambda o, k: "query %d" % k + (" 0 1" if cs[o] == "hist" else "")
    up = lambda o, k: ONE[cs[o]](rng) % k
    new = lambda o, k: MAKE.get(cs[o], "new %%d %s" % cs[o]) % k
    own_ = ["0", "1"]
    ops = ["begin 0"] + [new(o, k + o) for k in (0, 2, 4) for o in (0, 1)] + ["turns 2"]
    for x in h:
        w, who, o = x.split()
        o = int(o)
        if w == "u":
            ops += ["@%s %s" % (who, up(o, o)), "@%s %s" % (who, ask(o, o))]
        else:
            own_[o] = who
            ops += ["@%s %s" % (u, ask(o, o)) for u in ("01" if who == "2" else who)]
    ops += ["join", "par 2"]
    for _ in range(3):
        for t in (0, 1):
            for o in (0, 1):
                mine = 2 + 2 * t + o
                if own_[o] == str(t):
                    ops += ["@%d %s" % (t, x) for x in (up(o, o), ask(o, o), "copy %s %d %d" % (rng.choice(["assign", "take", "steal"]), mine, o))]
                    if "copy assign" not in ops[-1]:
                        ops += ["@%d %s" % (t, x) for x in (ask(o, mine), "copy clone %d %d" % (o, mine))]
                elif own_[o] == "2":
                    ops += ["@%d %s" % (t, x) for x in (ask(o, o), "copy %s %d %d" % (rng.choice(["assign", "clone"]), mine, o), up(o, mine), ask(o, mine))]
    return ops + ["join"]


SHARE = {"grid": q_grid, "lattice": q_lattice, "objects": q_objects, "rational": q_rational, "generic": q_generic, "rng": q_rng, "utils": q_utils}


def shared(driver):
    """threads that query what they have in common, at the same time"""
    def gen(rng, tier):
        S = []
        per = {"lattice": 40, "objects": 40, "grid": 20}.get(driver, 12) * (1 if tier != "thorough" else 8)
        for k in range(per):
            main, prog, _ = SHARE[driver](rng)
            n = rng.choice([2, 3])
            ps = [prog(i) for i in range(n)]
            if rng.random() < .3 and driver in ("grid", "lattice"):
                ps = [ps[0]] * n
            S.append(Stim("share_%s%d" % (driver, k), main + ["par %d" % n] + [o for i, p in enumerate(ps) for o in enumerate_ops(i, p)] + ["join"]))
        return S
    return gen


def part(driver, gen, own_):
    mod, ids = MODS[driver]
    obs = generic.OBS if driver == "generic" else utils.ROBS if driver == "rng" else mod.OBS
    b = dict(driver="drv_" + driver, name="thr_%s_%d" % (driver, own_), san="thread", defs=["CONF_OWN"] if own_ else [])
    if driver in ("objects", "rng"):
        b["libs"] = LIB
    return dict(spec=SPECS[driver], gen=gen(driver), build=[b], obs=obs)


ORDER = ["lattice", "objects", "grid", "utils", "rational", "generic", "rng"]
HANDED = dict(part("objects", handed, 0), tlcgen=[("Gen_Threads", "Gen_Threads")], tlcgen_thorough=[("Gen_Threads", "Gen_Threads_thorough")], tlcconv=handconv)
MC = dict(mc=[("MC_Threads", "MC_Threads")], mc_thorough=[("MC_Threads", "MC_Threads_thorough")], sanitizer="ThreadSanitizer")
CHECKS = {
    "C32": dict(MC, parts=[part(d, own, 1) for d in ORDER] + [HANDED if d == "objects" else part(d, handed, 0) for d in ORDER]),
    "C33": dict(MC, parts=[part(d, shared, 0) for d in ORDER]),
}
