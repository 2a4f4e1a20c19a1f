----------------------------- MODULE Trace_Units ----------------------------
(***************************************************************************)
(* Recorded programs of several translation units.  Any headers may be     *)
(* included in any order by any unit: each unit compiles, all of them link *)
(* into one program, and a question has one answer in a program, whichever *)
(* unit asks it and whichever made, wrote or threw what it is about.       *)
(***************************************************************************)
EXTENDS Units, Replay, TLC
VARIABLES units,   \* the headers each unit asked for
          linked,
          answers  \* what the program answered: kind and name to value
vars == <<t, l, units, linked, answers>>

Init == ReplayInit /\ units = <<>> /\ linked = FALSE /\ answers = <<>>

Compile == /\ Is("unit") /\ Ev.compiled /\ ~linked
           /\ units' = Append(units, Ev.headers) /\ UNCHANGED <<linked, answers>>
Link == /\ Is("link") /\ Ev.ok /\ ~linked /\ units # <<>>
        /\ linked' = TRUE /\ UNCHANGED <<units, answers>>

(* what most of the programs answer: the headers that a program includes   *)
(* beside those in question make no difference                             *)
Answering == {"probe", "pass", "archive", "fault"}
Answers == UNION {{<<i, j>> : j \in {k \in DOMAIN Traces[i] : Traces[i][k].op \in Answering}} : i \in DOMAIN Traces}
Name(x) == <<Traces[x[1]][x[2]].op, Traces[x[1]][x[2]].name>>
Value(x) == Traces[x[1]][x[2]].value
Usual == [q \in {Name(x) : x \in Answers} |->
            LET A == {x \in Answers : Name(x) = q}
                Times(v) == Cardinality({x \in A : Value(x) = v})
            IN  CHOOSE v \in {Value(x) : x \in A} : \A w \in {Value(x) : x \in A} : Times(w) <= Times(v)]

Agrees(kind) ==
  LET q == <<kind, Ev.name>>
  IN  /\ linked
      /\ Ev.value = Usual[<<Ev.op, Ev.name>>]
      /\ q \in DOMAIN answers => answers[q] = Ev.value
      /\ answers' = IF q \in DOMAIN answers THEN answers ELSE answers @@ (q :> Ev.value)
      /\ UNCHANGED <<units, linked>>
Unit(k) == k + 1 \in DOMAIN units
Probe == Is("probe") /\ Unit(Ev.k) /\ Agrees("probe")
Pass == Is("pass") /\ Unit(Ev.k) /\ Unit(Ev.to) /\ Agrees("thing")
Archive == Is("archive") /\ Unit(Ev.k) /\ Unit(Ev.to) /\ Agrees("archive")
Fault == Is("fault") /\ Unit(Ev.k) /\ Unit(Ev.to) /\ Ev.caught = "own" /\ Agrees("fault")
(* everything every unit can be asked has been asked                       *)
Done == /\ Is("done") /\ linked
        /\ \A k \in DOMAIN units : \A h \in 1..Len(units[k]) : Asked(units[k][h]) \subseteq {q[2] : q \in DOMAIN answers}
        /\ UNCHANGED <<units, linked, answers>>

Next == \/ Advance /\ (Compile \/ Link \/ Probe \/ Pass \/ Archive \/ Fault \/ Done)
        \/ Finished /\ UNCHANGED <<units, linked, answers>>
=============================================================================
