------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Replaying recorded executions against a specification.                  *)
(*                                                                         *)
(* The file named by the environment variable BWSL_TRACES holds one        *)
(* execution of the real code per line: a JSON array of events, each a     *)
(* record with the operation, its arguments and its observed results.      *)
(*                                                                         *)
(* A trace specification picks an execution (t) and steps through its      *)
(* events (l), conjoining Advance with the actions of the specification it *)
(* checks.  An event that no action of the specification allows leaves the *)
(* behaviour without a successor: TLC reports that as a deadlock, and t    *)
(* and l in its state name the execution and the event.  Finished is the   *)
(* only step at the end of an execution.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.BWSL_TRACES)

VARIABLES t, l

Exec == Traces[t]
Ev == Exec[l]
ReplayInit == t \in DOMAIN Traces /\ l = 1
More == l <= Len(Exec)
Advance == More /\ l' = l + 1 /\ UNCHANGED t
Finished == ~More /\ UNCHANGED <<t, l>>
Is(op) == More /\ Ev.op = op

Has(r, key) == key \in DOMAIN r
=============================================================================
