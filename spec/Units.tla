-------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* Programs made of translation units that include headers.                *)
(*                                                                         *)
(* A header has a text (declarations and definitions) and headers of its   *)
(* own that it includes first.  Each is guarded: the second time a unit    *)
(* reaches it, it is empty.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* what a unit consists of: the texts in the order in which they appear    *)
(* when the headers of todo are included, deps giving each header's own    *)
RECURSIVE Texts(_, _, _)
Texts(deps, todo, had) ==
  IF todo = <<>> THEN had
  ELSE LET h == Head(todo)
           in == {had[k] : k \in 1..Len(had)}
       IN  IF h \in in THEN Texts(deps, Tail(todo), had)
           ELSE Texts(deps, Tail(todo), Append(Texts(deps, deps[h], had), h))
Text(deps, unit) == Texts(deps, unit, <<>>)

(* A name defined in a header is one that may be defined in every unit     *)
(* ("inline": one of them is used; "internal": each unit has its own) or   *)
(* one that may not ("external").                                          *)
Linkages == {"inline", "internal", "external"}
Defining(deps, program, h) == {u \in DOMAIN program : \E k \in DOMAIN Text(deps, program[u]) : Text(deps, program[u])[k] = h}
LinksTogether(deps, linkage, program) ==
  \A h \in DOMAIN deps : linkage[h] = "external" => Cardinality(Defining(deps, program, h)) <= 1

(* which headers lead to which questions of the drivers                    *)
Asked(header) ==
  CASE header = "Approx.hpp" -> {"Approx"}
    [] header = "Bravais.hpp" -> {"Bravais"}
    [] header = "HyperCubicGrid.hpp" -> {"HyperCubicGrid"}
    [] header = "Lattice.hpp" -> {"Lattice"}
    [] header = "MathUtils.hpp" -> {"MathUtils"}
    [] header = "Pairs.hpp" -> {"Pairs"}
    [] header = "LinSpace.hpp" -> {"LinSpace"}
    [] header = "LogSpace.hpp" -> {"LogSpace"}
    [] header = "RationalNum.hpp" -> {"RationalNum"}
    [] header = "Exceptions.hpp" -> {"BadParsing"}
    [] header = "accumulators/AccumulatorsExceptions.hpp" -> {"AccumulatorOverflow"}
    [] header = "RelationalUtils.hpp" -> {"RelationalUtils"}
    [] header = "EnumString.hpp" -> {"EnumString"}
    [] header = "FileUtils.hpp" -> {"FileUtils"}
    [] header = "Accumulators.hpp" -> {"Kahan", "Neumaier", "KnuthWelford", "West", "apply"}
    [] header = "accumulators/KahanAccumulator.hpp" -> {"Kahan"}
    [] header = "accumulators/NeumaierAccumulator.hpp" -> {"Neumaier"}
    [] header = "accumulators/KnuthWelfordAccumulator.hpp" -> {"KnuthWelford"}
    [] header = "accumulators/WestAccumulator.hpp" -> {"West"}
    [] header = "accumulators/NaiveIntegerAccumulator.hpp" -> {"NaiveInteger"}
    [] header = "HistAccumulator.hpp" -> {"Hist"}
    [] header = "ObservableGroup.hpp" -> {"Group"}
    [] header = "MonteCarloUtils.hpp" -> {"Moves", "MoveResult"}
    [] header = "mcutils/MoveStats.hpp" -> {"Moves", "MoveInvalidSequence", "InvalidProbability"}
    [] header = "mcutils/MoveResult.hpp" -> {"MoveResult"}
    [] header = "mcutils/MoveStatus.hpp" -> {"MoveStatus"}
    [] OTHER -> {"users"}
=============================================================================
