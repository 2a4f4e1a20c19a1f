----------------------------- MODULE MC_Generic -----------------------------
(***************************************************************************)
(* For every strict weak order on a small set: the derived relations are   *)
(* a total preorder with its equivalence, its strict part and their        *)
(* negations; they are symmetric under exchange of the operands.           *)
(***************************************************************************)
EXTENDS Generic
CONSTANT N
VARIABLES lt, a, b, c
E == 1..N
Strict(r) == \A x \in E : <<x, x>> \notin r
Trans(r) == \A x, y, z \in E : <<x, y>> \in r /\ <<y, z>> \in r => <<x, z>> \in r
Eqv(r, x, y) == <<x, y>> \notin r /\ <<y, x>> \notin r
Weak(r) == \A x, y, z \in E : Eqv(r, x, y) /\ Eqv(r, y, z) => Eqv(r, x, z)
Init == /\ lt \in {r \in SUBSET (E \X E) : Strict(r) /\ Trans(r) /\ Weak(r)}
        /\ a \in E /\ b \in E /\ c \in E
Next == UNCHANGED <<lt, a, b, c>>
R(x, y) == LET xy == <<x, y>> \in lt
               yx == <<y, x>> \in lt
           IN  Derived(xy, yx, Equiv(xy, yx))
One == Cardinality({k \in {"lt", "eq", "gt"} : R(a, b)[k]}) = 1
Parts == /\ R(a, b).le = (R(a, b).lt \/ R(a, b).eq)
         /\ R(a, b).ge = (R(a, b).gt \/ R(a, b).eq)
         /\ R(a, b).ne = (R(a, b).lt \/ R(a, b).gt)
Mirror == LET x == R(a, b)
              y == R(b, a)
          IN  x.lt = y.gt /\ x.le = y.ge /\ x.eq = y.eq /\ x.ne = y.ne
Chains == /\ R(a, b).le /\ R(b, c).le => R(a, c).le
          /\ R(a, b).eq /\ R(b, c).eq => R(a, c).eq
          /\ R(a, b).lt /\ R(b, c).le => R(a, c).lt
          /\ R(a, a).eq /\ R(a, a).le /\ R(a, a).ge
(* the orders of the driver's classes are such orders *)
Pairs == {<<x, y>> : x \in -1..1, y \in -1..1}
ASSUME \A k \in {"card", "item", "level", "box", "boxd"} :
         \A x, y, z \in Pairs :
           /\ Less(k, x, y) = Greater(k, y, x)
           /\ ~Less(k, x, x)
           /\ Less(k, x, y) /\ Less(k, y, z) => Less(k, x, z)
=============================================================================
