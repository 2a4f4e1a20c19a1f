"""C35: programs of several translation units."""
import os
from .core import *

HEADERS = ["Accumulators.hpp", "Approx.hpp", "Bravais.hpp", "EnumString.hpp", "Exceptions.hpp", "FileUtils.hpp", "HistAccumulator.hpp",
           "HyperCubicGrid.hpp", "Lattice.hpp", "LinSpace.hpp", "LogSpace.hpp", "MathUtils.hpp", "MonteCarloUtils.hpp", "ObservableGroup.hpp",
           "Pairs.hpp", "RNGUtils.hpp", "RationalNum.hpp", "RelationalUtils.hpp", "accumulators/AccumulatorsExceptions.hpp",
           "accumulators/KahanAccumulator.hpp", "accumulators/KnuthWelfordAccumulator.hpp", "accumulators/NaiveIntegerAccumulator.hpp",
           "accumulators/NeumaierAccumulator.hpp", "accumulators/WestAccumulator.hpp", "mcutils/MoveResult.hpp", "mcutils/MoveStats.hpp",
           "mcutils/MoveStatus.hpp"]


def unit(hs, archives=0):
    return "unit %d %s" % (archives, " ".join(hs))


def gen_c35(rng, tier):
    S = []
    big = tier == "thorough"

    def order(hs):
        hs = list(hs)
        rng.shuffle(hs)
        return hs
    # everything in every unit, in different orders, some of it twice
    for k in range(1 if not big else 8):
        a = order(HEADERS)
        S.append(Stim("all%d" % k, [unit(a, 1), unit(a[::-1], 1), "program"]))
    # some of it here and some of it there, together all of it
    for k in range(4 if not big else 40):
        us = []
        for _ in range(3):
            hs = rng.sample(HEADERS, rng.randint(4, 14))
            us.append(unit(hs + rng.sample(hs, rng.randint(0, 2)), int(rng.random() < .4)))
        S.append(Stim("some%d" % k, us + ["program"]))
    return S


def unitconv(h, rng):
    us = [[]]
    for x in h:
        if x == "|":
            us.append([])
        else:
            us[-1].append(x)
    if us[0] == us[-1] and len(us[0]) == 1:
        # alone, and after another
        us[1] = us[1] + [rng.choice(HEADERS)]
    return [unit(x) for x in us] + ["program"]


OBS = {"unit": ["compiled"], "link": ["ok"], "probe": ["value"], "pass": ["value"], "archive": ["value"], "fault": ["caught", "value"]}
CHECKS = {
    "C35": dict(gen=gen_c35, spec="Trace_Units", obs=OBS, build=[dict(driver="drv_units", san=None)], timeout=800,
                driver_env={"BWSL_INC": os.path.join(REPO, "include"), "BWSL_HARNESS": os.path.join(VERIF, "harness"), "BWSL_FLAGS": "-O0"},
                tlcgen=[("Gen_Units", "Gen_Units")], tlcgen_thorough=[("Gen_Units", "Gen_Units"), ("Gen_Units", "Gen_Units_thorough")], tlcconv=unitconv,
                mc=[("MC_Units", "MC_Units")], mc_thorough=[("MC_Units", "MC_Units_thorough")]),
}
