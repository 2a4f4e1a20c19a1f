-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* A particle hopping between the sites of a grid while its caller         *)
(* accumulates the jumps (property C03).                                   *)
(***************************************************************************)
EXTENDS Grid, Integers, Sequences

VARIABLES L,       \* extents of the grid
          closed,  \* periodic?
          first,   \* site the walk started from
          here,    \* site it is at
          acc      \* sum of the jumps so far
walkvars == <<L, closed, first, here, acc>>

Zero(sizes) == [k \in DOMAIN sizes |-> 0]

Start(sizes, periodic, site) ==
  /\ L' = sizes /\ closed' = periodic /\ first' = site /\ here' = site
  /\ acc' = Zero(sizes)

Hop(b) ==
  /\ b \in Sites(L)
  /\ here' = b
  /\ acc' = VAdd(acc, Jump(L, closed, here, b))
  /\ UNCHANGED <<L, closed, first>>

(* Takes the walk to its end: the jumps lead from the first site to here. *)
Leads ==
  LET d == VSub(VSub(Coords(L, here), Coords(L, first)), acc)
  IN  IF closed THEN Multiple(L, d) ELSE d = Zero(L)

(* A closed walk has an integer winding number, zero when open. *)
ClosedWalk ==
  here = first => /\ Multiple(L, acc)
                  /\ [k \in Dims(L) |-> Winding(L, acc)[k] * L[k]] = acc
                  /\ ~closed => acc = Zero(L)
=============================================================================
