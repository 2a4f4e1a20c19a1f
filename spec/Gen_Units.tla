------------------------------ MODULE Gen_Units -----------------------------
(***************************************************************************)
(* Enumerates programs: which headers each unit includes, in which order.  *)
(* With Mode "alone", each header alone in two units; with "pairs", every  *)
(* header after every other one.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT Mode
Headers == {"Accumulators.hpp", "Approx.hpp", "Bravais.hpp", "EnumString.hpp", "Exceptions.hpp", "FileUtils.hpp", "HistAccumulator.hpp",
            "HyperCubicGrid.hpp", "Lattice.hpp", "LinSpace.hpp", "LogSpace.hpp", "MathUtils.hpp", "MonteCarloUtils.hpp", "ObservableGroup.hpp",
            "Pairs.hpp", "RNGUtils.hpp", "RationalNum.hpp", "RelationalUtils.hpp", "accumulators/AccumulatorsExceptions.hpp",
            "accumulators/KahanAccumulator.hpp", "accumulators/KnuthWelfordAccumulator.hpp", "accumulators/NaiveIntegerAccumulator.hpp",
            "accumulators/NeumaierAccumulator.hpp", "accumulators/WestAccumulator.hpp", "mcutils/MoveResult.hpp", "mcutils/MoveStats.hpp",
            "mcutils/MoveStatus.hpp"}
VARIABLES hist
Init == hist = <<>>
Next == /\ hist = <<>>
        /\ IF Mode = "alone" THEN \E h \in Headers : hist' = <<h, "|", h>>
           ELSE \E h, g \in Headers : h # g /\ hist' = <<h, g, "|", g, h>>
Emit == hist # <<>> => PrintT(<<"STIM", hist>>)
=============================================================================
