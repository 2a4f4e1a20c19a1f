----------------------------- MODULE Trace_Grid -----------------------------
(***************************************************************************)
(* Executions of HyperCubicGrid, Pairs and the walking parts of Lattice    *)
(* against Grid and Walk (C01 - C04).  Grids whose numbers exceed TLC's    *)
(* integers ("wide") are held as big integers; for them the results are    *)
(* checked against the laws that determine them uniquely.                  *)
(***************************************************************************)
EXTENDS Replay, Walk, Big, TLC

VARIABLES W \* extents of a wide grid
vars == <<t, l, walkvars, W>>

Same == UNCHANGED <<walkvars, W>>
Keep == UNCHANGED walkvars

Init == /\ ReplayInit
        /\ L = <<>> /\ closed = FALSE /\ first = 0 /\ here = 0 /\ acc = <<>> /\ W = <<>>

Described(e, sizes, n) ==
  /\ e.dim = Len(sizes) /\ e.size = sizes /\ e.n = n
  /\ e.closed = e.argclosed /\ e.open = ~e.argclosed /\ e.bclosed = e.argclosed

New == /\ Is("new") /\ Described(Ev, Ev.L, NumSites(Ev.L))
       /\ L' = Ev.L /\ closed' = Ev.argclosed /\ first' = 0 /\ here' = 0 /\ acc' = Zero(Ev.L)
       /\ UNCHANGED W

Table == /\ Is("table")
         /\ Len(Ev.cs) = NumSites(L)
         /\ \A i \in Sites(L) : /\ Ev.cs[i + 1] = Coords(L, i)
                                /\ Ev.idx[i + 1] = i
                                /\ Ev.valid[i + 1] = 1
         /\ ~Ev.past
         /\ Same

CoordsOf == /\ Is("coords") /\ Ev.c = Coords(L, Ev.i) /\ Ev.back = Ev.i /\ Same
OnGridOf == /\ Is("ongrid") /\ Ev.r = OnGrid(L, Ev.c) /\ Same
EnforceOf == /\ Is("enforce") /\ Ev.r = Enforce(L, closed, Ev.c) /\ Same
LatEnforceOf == /\ Is("latenforce") /\ closed /\ Ev.r = Wrap(L, Ev.c) /\ Same
MappedOf == /\ Is("mapped") /\ Ev.r = Mapped(L, Ev.a, Ev.b) /\ Same
UnMappedOf == /\ Is("unmapped") /\ Ev.r = UnMapped(L, Ev.i, Ev.a) /\ Same
MapTable == /\ Is("maptable")
            /\ LET C == [i \in Sites(L) |-> Coords(L, i)]
               IN  \A a, b \in Sites(L) :
                     /\ Ev.m[a + 1][b + 1] = Index(L, Wrap(L, VSub(C[b], C[a])))
                     /\ Ev.u[a + 1][b + 1] = Index(L, Wrap(L, VAdd(C[a], C[b])))
            /\ Same
JumpOf == /\ Is("jump") /\ Ev.r = Jump(L, closed, Ev.a, Ev.b) /\ Same
JumpTable == /\ Is("jumptable")
             /\ LET C == [i \in Sites(L) |-> Coords(L, i)]
                    J(d) == IF closed THEN [k \in Dims(L) |-> MinStep(L[k], d[k])] ELSE d
                IN  \A a, b \in Sites(L) : Ev.j[a + 1][b + 1] = J(VSub(C[b], C[a]))
             /\ Same

(* ------------------------------- walks --------------------------------- *)
StartWalk == /\ Is("start") /\ Described(Ev, Ev.L, NumSites(Ev.L))
             /\ Start(Ev.L, Ev.argclosed, Ev.site)
             /\ UNCHANGED W
(* C truncates a quotient; the specification only says what a winding is   *)
(* for an exact multiple of the extents                                    *)
HopTo == /\ Is("hop") /\ Hop(Ev.b)
         /\ Ev.j = Jump(L, closed, here, Ev.b)
         /\ Ev.acc = acc'
         /\ Multiple(L, acc') => Ev.w = Winding(L, acc')
         /\ Leads' /\ ClosedWalk'
         /\ UNCHANGED W
WindingOf == /\ Is("winding") /\ Multiple(L, Ev.c) /\ Ev.w = Winding(L, Ev.c) /\ Same

(* a total jump of any size *)
WWindingOf == /\ Is("wwinding") /\ Len(Ev.w) = Len(L)
              /\ \A k \in Dims(L) : BMul(Ev.w[k], BI(L[k])) = Ev.c[k]
              /\ Same

(* ----------------------------- wide grids ------------------------------ *)
WNew == /\ Is("wnew") /\ Described(Ev, Ev.L, BProd(Ev.L))
        /\ W' = Ev.L /\ closed' = Ev.argclosed
        /\ UNCHANGED <<L, first, here, acc>>

BNonNeg(x) == BSgn(x) >= 0
WOnGrid(c) == \A k \in DOMAIN W : BNonNeg(c[k]) /\ BLt(c[k], W[k])
WIndex(c) == FoldLeft(LAMBDA a, k : BAdd(BMul(a, W[k]), c[k]), BZero, [k \in DOMAIN W |-> k])
(* row-major position determines the coordinates *)
WIs(i, c) == Len(c) = Len(W) /\ WOnGrid(c) /\ WIndex(c) = i

WCoords == /\ Is("wcoords") /\ WIs(Ev.i, Ev.c) /\ Ev.back = Ev.i /\ Same
WIndexOf == /\ Is("windex") /\ WIs(Ev.i, Ev.c) /\ Ev.back = Ev.c /\ Same
WOnGridOf == /\ Is("wongrid") /\ Ev.r = WOnGrid(Ev.c) /\ Same
WEnforce == /\ Is("wenforce")
            /\ Ev.r = IF closed THEN [k \in DOMAIN W |-> BMod(Ev.c[k], W[k])] ELSE Ev.c
            /\ Same
(* d - e is one of -n, 0, n *)
WShift(d, e, n) == LET s == BSub(d, e) IN s = BZero \/ BAbs(s) = n
WMapped == /\ Is("wmapped")
           /\ WIs(Ev.a, Ev.ca) /\ WIs(Ev.b, Ev.cb) /\ WIs(Ev.r, Ev.cr)
           /\ \A k \in DOMAIN W : WShift(Ev.cr[k], BSub(Ev.cb[k], Ev.ca[k]), W[k])
           /\ Ev.back = Ev.b
           /\ Same
WJump == /\ Is("wjump")
         /\ WIs(Ev.a, Ev.ca) /\ WIs(Ev.b, Ev.cb) /\ Len(Ev.r) = Len(W)
         /\ \A k \in DOMAIN W :
              LET d == BSub(Ev.cb[k], Ev.ca[k])
                  j == Ev.r[k]
              IN  IF closed
                  THEN /\ WShift(j, d, W[k])
                       /\ BLe(BShl(j, 1), W[k]) /\ BLt(BNeg(W[k]), BShl(j, 1))
                  ELSE j = d
         /\ Same

(* -------------------------------- pairs -------------------------------- *)
BPairIndex(n, a, b) == BAdd(BMul(b, n), a)
NPairs == /\ Is("npairs") /\ Ev.r = BMul(Ev.n, Ev.n) /\ Same
Pair == /\ Is("pair")
        /\ BLt(Ev.k, BMul(Ev.n, Ev.n)) /\ BNonNeg(Ev.k)
        /\ Ev.k2 = Ev.k /\ Ev.pa = Ev.a /\ Ev.pb = Ev.b
        /\ Same
UnPair == /\ Is("unpair")
          /\ BNonNeg(Ev.a) /\ BLt(Ev.a, Ev.n) /\ BNonNeg(Ev.b) /\ BLt(Ev.b, Ev.n)
          /\ Ev.back = Ev.k
          /\ Same
(* a bijection, whichever: indices in range, distinct, and decoded back *)
PairTable == /\ Is("pairtable")
             /\ Ev.np = NumPairs(Ev.n)
             /\ Len(Ev.p) = Ev.np
             /\ \A a, b \in 0..(Ev.n - 1) :
                  LET k == Ev.k[a + 1][b + 1]
                  IN  k \in 0..(Ev.np - 1) /\ Ev.p[k + 1] = <<a, b>>
             /\ \A k \in 0..(Ev.np - 1) :
                  LET p == Ev.p[k + 1]
                  IN  p[1] \in 0..(Ev.n - 1) /\ p[2] \in 0..(Ev.n - 1) /\ Ev.k[p[1] + 1][p[2] + 1] = k
             /\ Same
GridPair == /\ Is("gridpair") /\ Ev.k = Ev.lib /\ Ev.pa = Ev.a /\ Ev.pb = Ev.b /\ Same

Next == \/ Advance /\ \/ New \/ Table \/ CoordsOf \/ OnGridOf \/ EnforceOf \/ LatEnforceOf
                      \/ MappedOf \/ UnMappedOf \/ MapTable \/ JumpOf \/ JumpTable
                      \/ StartWalk \/ HopTo \/ WindingOf \/ WWindingOf
                      \/ WNew \/ WCoords \/ WIndexOf \/ WOnGridOf \/ WEnforce \/ WMapped \/ WJump
                      \/ NPairs \/ Pair \/ UnPair \/ PairTable \/ GridPair
        \/ Finished /\ UNCHANGED <<walkvars, W>>
=============================================================================
