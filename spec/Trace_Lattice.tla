---------------------------- MODULE Trace_Lattice ----------------------------
(***************************************************************************)
(* Executions of Bravais and Lattice against the definitions of Lattice    *)
(* (C05 - C10).                                                            *)
(***************************************************************************)
EXTENDS Replay, Lattice

VARIABLES b,       \* the Bravais lattice
          kind,    \* which one, "user" if not built in
          L, closed,
          mom,     \* multiples of 2 pi of the momentum of each site, once seen
          sk,      \* the caller's structure factor: what was passed in
          shelf    \* lattices put aside: <<>> or <<[b, kind, L, closed]>>
lvars == <<b, kind, L, closed, mom, sk, shelf>>
vars == <<t, l, lvars>>
Same == UNCHANGED lvars

Init == /\ ReplayInit /\ b = Chain /\ kind = "" /\ L = <<>> /\ closed = FALSE /\ mom = <<>> /\ sk = <<>>
        /\ shelf = [k \in 0..2 |-> <<>>]

BravaisOf == IF Ev.kind = "chain" THEN Chain
             ELSE IF Ev.kind = "square" THEN Square
             ELSE IF Ev.kind = "cubic" THEN Cubic3
             ELSE IF Ev.kind = "triangular" THEN Triangular
             ELSE [dim |-> Len(Ev.P), den |-> Ev.den, P |-> Ev.P, R |-> Ev.R, nb |-> Ev.nb]
NewBravais ==
  /\ Is("bravais")
  /\ b' = BravaisOf /\ kind' = Ev.kind
  /\ Rational(b')
  /\ Ev.dim = b'.dim /\ Ev.gamma = 2 * Len(b'.nb)
  /\ UNCHANGED <<L, closed, mom, sk, shelf>>

(* ------------------------------- Bravais ------------------------------- *)
BAbsSum(c) == BSum([k \in DOMAIN c |-> BAbs(c[k])])
Real == /\ Is("real")
        /\ IsVectorB(b, Ev.r, Ev.c)
        /\ Len(Ev.inv) = b.dim
        /\ LET size == DMk(BAdd(BOne, BAbsSum(Ev.c)), 0)
           IN  \A k \in 1..b.dim : /\ IsFin(Ev.inv[k])
                                   /\ DLe(DShl(DAbs(DSub(Ev.inv[k], DMk(Ev.c[k], 0))), 36), size)
        /\ Same
(* dual: the scalar product with primitive vector j is 2 pi c[j] *)
Recip == /\ Is("recip")
         /\ Len(Ev.r) = b.dim
         /\ \A i \in 1..b.dim : IsFin(Ev.r[i])
         /\ LET one == [j \in 1..b.dim |-> 1]
                size == DAdd(DMk(BAdd(BOne, BAbsSum(Ev.c)), 0), DMulI(DSum([i \in 1..b.dim |-> DAbs(Ev.r[i])]), 8))
            IN  \A j \in 1..b.dim :
                  DLe(DShl(DAbs(DSub(Phase(b, one, Ev.r, j), DMulB(TwoPi, BMul(Ev.c[j], BI(b.den))))), 40), DMulI(size, b.den))
         /\ Same
BetweenPoints ==
  /\ Is("between")
  /\ LET d == BVSub(Ev.b, Ev.a)
     IN  /\ IsVectorB(b, Ev.v, d) /\ IsVectorB(b, Ev.dv, d)
         /\ IsLengthB(b, Ev.d, d) /\ IsLengthB(b, Ev.dd, d)
  /\ Same
Step == /\ Is("step")
        /\ Ev.nm = Ev.c /\ Ev.mn = Ev.c
        /\ Ev.m = BVSub(BVAdd(Ev.c, Ev.c), Ev.n)
        /\ LET o == b.nb[(Ev.j \div 2) + 1] IN BVSub(Ev.n, Ev.c) \in {Bigs(o), Bigs(Neg(o))}
        /\ Same

(* ------------------------------- lattices ------------------------------ *)
NewLattice ==
  /\ Is("lattice")
  /\ L' = Ev.L /\ closed' = Ev.argclosed
  /\ Ev.size = Ev.L /\ Ev.n = NumSites(Ev.L) /\ Ev.closed = Ev.argclosed /\ Ev.dim = Len(Ev.L)
  /\ mom' = <<>> /\ sk' = [x \in 1..Ev.n |-> DZero]
  /\ UNCHANGED <<b, kind, shelf>>
CopyLattice == Is("copylat") /\ Ev.n = NumSites(L) /\ Same

(* lattices are values: nothing that happens to one changes another (C34)  *)
Current == [b |-> b, kind |-> kind, L |-> L, closed |-> closed]
Becomes(c) == /\ b' = c.b /\ kind' = c.kind /\ L' = c.L /\ closed' = c.closed
              /\ mom' = <<>> /\ sk' = [x \in 1..NumSites(c.L) |-> DZero]
Shelve == Is("shelve") /\ shelf' = [shelf EXCEPT ![Ev.k] = <<Current>>] /\ UNCHANGED <<b, kind, L, closed, mom, sk>>
Fetch == /\ Is("fetch") /\ shelf[Ev.k] # <<>> /\ Becomes(shelf[Ev.k][1])
         /\ shelf' = IF Ev.gone THEN [shelf EXCEPT ![Ev.k] = <<>>] ELSE shelf
Exchange == /\ Is("exchange") /\ shelf[Ev.k] # <<>> /\ Becomes(shelf[Ev.k][1])
            /\ shelf' = [shelf EXCEPT ![Ev.k] = <<Current>>]
Itself == Is("itself") /\ Same
GridOf ==
  /\ Is("grid")
  /\ Ev.size = L /\ Ev.n = NumSites(L) /\ Ev.dim = Len(L) /\ Ev.closed = closed /\ Ev.open = ~closed /\ Ev.valid
  /\ Len(Ev.cs) = Ev.n /\ Len(Ev.idx) = Ev.n
  /\ \A x \in Sites(L) :
       /\ Ev.cs[x + 1] = Coords(L, x) /\ Ev.idx[x + 1] = x
       /\ \A y \in Sites(L) : Ev.jump[x + 1][y + 1] = Jump(L, closed, x, y)
       /\ closed => \A y \in Sites(L) : /\ Ev.mapped[x + 1][y + 1] = Mapped(L, x, y)
                                         /\ Ev.unmapped[x + 1][y + 1] = UnMapped(L, y, x)
  /\ Same

Neighbors ==
  /\ Is("neighbors")
  /\ Len(Ev.nb) = NumSites(L)
  /\ \A x \in Sites(L) :
       LET want == NeighborList(b, L, closed, x)
       IN  /\ Sorted(Ev.nb[x + 1]) = want
           /\ Ev.are[x + 1] = Ints(Range1(want))
           /\ Ev.coord[x + 1] = Len(want)
  /\ Ev.z = Len(NeighborList(b, L, closed, 0))
  /\ Same
(* the offsets of the built-in lattices are the vectors of unit length     *)
BuiltinNeighbors ==
  /\ Is("builtin")
  /\ kind # "user"
  /\ Len(Ev.off) = Cardinality(UnitVectors(b))
  /\ Range1(Ev.off) = UnitVectors(b)
  /\ Same

Vec == /\ Is("vec")
       /\ \E c \in Between(b, L, closed, Ev.a, Ev.b) :
             IsVector(b, Ev.v, c) /\ IsLength(b, Ev.d, c)
       /\ Same
Positions ==
  /\ Is("positions")
  /\ Len(Ev.p) = NumSites(L)
  /\ \A x \in Sites(L) : IsVector(b, Ev.p[x + 1], Coords(L, x))
  /\ Same
Position == /\ Is("position") /\ IsVector(b, Ev.p, Coords(L, Ev.a)) /\ Same
(* the neighbours of one site of a large lattice *)
NeighborsOf ==
  /\ Is("nbof")
  /\ LET want == NeighborList(b, L, closed, Ev.a)
     IN  Sorted(Ev.nb) = want /\ Ev.coord = Len(want) /\ Ev.are = [k \in DOMAIN Ev.probe |-> Ev.probe[k] \in Range1(want)]
  /\ Same

(* one momentum per site, all different modulo reciprocal lattice vectors  *)
Momenta ==
  /\ Is("momenta") /\ closed
  /\ Len(Ev.k) = NumSites(L)
  /\ LET N == TLCEval([x \in 1..Len(Ev.k) |-> Multiples(b, L, Ev.k[x])])
     IN  /\ \A x \in 1..Len(Ev.k) : IsMomentum(b, L, Ev.k[x], N[x]) /\ Centred(L, N[x])
         /\ Cardinality({[j \in Dims(L) |-> N[x][j] % L[j]] : x \in 1..Len(Ev.k)}) = NumSites(L)
         /\ mom' = N
  /\ UNCHANGED <<b, kind, L, closed, sk, shelf>>

(* some of the momenta of a large lattice                                  *)
MomentaOf ==
  /\ Is("momof") /\ closed /\ Len(Ev.k) = Len(Ev.at)
  /\ LET N == TLCEval([x \in 1..Len(Ev.k) |-> Multiples(b, L, Ev.k[x])])
     IN  /\ \A x \in 1..Len(Ev.k) : IsMomentum(b, L, Ev.k[x], N[x]) /\ Centred(L, N[x])
         /\ \A x, y \in 1..Len(Ev.k) : Ev.at[x] # Ev.at[y] => N[x] # N[y]
  /\ Same

(* a few occupied sites on a large lattice: the values at some momenta, and *)
(* the sum of all the values, which is mult times the mean square           *)
Sqr(d) == DMul(d, d)
SkSparse ==
  /\ Is("sksparse") /\ closed /\ Len(Ev.r) = NumSites(L) /\ \A x \in DOMAIN Ev.r : IsFin(Ev.r[x])
  /\ LET M == LcmAll(L)
         N == TLCEval([x \in 1..Len(Ev.k) |-> Multiples(b, L, Ev.k[x])])
         A == DSum([x \in 1..Len(Ev.occ) |-> DAbs(Ev.occ[x])])
         size == DMul(DAbs(Ev.mult), DMul(A, A))
         n2(x) == DMulI(DMulI(x, NumSites(L)), NumSites(L))
         C == TLCEval([i \in 1..Len(Ev.sites) |-> Coords(L, Ev.sites[i])])
         ph(x, i) == SumI([j \in Dims(L) |-> (N[x][j] * C[i][j] * (M \div L[j])) % M]) % M
         T(x) == [i \in 1..Len(Ev.sites) |-> CosSin(ph(x, i), M)]
         part(x, tab, q) == DSum([i \in 1..Len(Ev.sites) |-> DMul(Ev.occ[i], DMk(tab[i][q], -Fx))])
         Exact(x) == LET tab == TLCEval(T(x))
                     IN  DMul(Ev.mult, DAdd(Sqr(part(x, tab, 1)), Sqr(part(x, tab, 2))))
     IN  /\ \A x \in 1..Len(Ev.k) :
              /\ IsMomentum(b, L, Ev.k[x], N[x])
              /\ DLe(DShl(DAbs(DSub(n2(Ev.r[Ev.at[x] + 1]), Exact(x))), 34), size)
         /\ DLe(DShl(DAbs(DSub(n2(DSum(Ev.r)), DMulI(DMul(Ev.mult, DSum([i \in 1..Len(Ev.occ) |-> Sqr(Ev.occ[i])])), NumSites(L)))), 34),
                DMulI(size, NumSites(L)))
  /\ Same

SkInit == /\ Is("skinit") /\ sk' = Ev.r /\ UNCHANGED <<b, kind, L, closed, mom, shelf>>
Sk ==
  /\ Is("sk")
  /\ Ev.occafter = Ev.occ
  /\ Len(Ev.r) = NumSites(L)
  /\ LET old == IF Ev.accumulate THEN sk ELSE [x \in 1..NumSites(L) |-> DZero]
         M == LcmAll(L)
         n2 == NumSites(L) * NumSites(L)
         T == TLCEval([m \in 0..(M - 1) |-> CosSin(m, M)])
         A == DSum([x \in 1..Len(Ev.occ) |-> DAbs(Ev.occ[x])])
         size == DMul(DAbs(Ev.mult), DMul(A, A))
         Ok(x) == LET exact == DAdd(DMulI(old[x], n2), DMul(Ev.mult, Modulus2(L, mom[x], Ev.occ, T, M)))
                  IN  /\ IsFin(Ev.r[x])
                      /\ DLe(DShl(DAbs(DSub(DMulI(Ev.r[x], n2), exact)), 38), DAdd(size, DMulI(DAbs(old[x]), n2)))
     IN  IF closed THEN \A x \in 1..Len(Ev.r) : Ok(x) ELSE Ev.r = old
  /\ sk' = IF Ev.accumulate THEN Ev.r ELSE sk
  /\ UNCHANGED <<b, kind, L, closed, mom, shelf>>

(* ------------------------------ saved files ---------------------------- *)
Columns(name) == FoldLeft(LAMBDA s, k : s \o "," \o name \o ToString(k - 1), "", [k \in 1..b.dim |-> k])
Header(what) == CASE what = "positions" -> "i" \o Columns("x")
                  [] what = "distances" -> "i" \o Columns("d")
                  [] what = "momenta"   -> "i" \o Columns("k")
                  [] what = "pairs"     -> "i,a,b" \o Columns("x") \o Columns("y") \o Columns("d")
Save ==
  /\ Is("save")
  /\ Ev.header = Header(Ev.what) /\ Ev.newline
  /\ IF Ev.what = "pairs"
     THEN LET n == Ev.n
          IN  /\ Len(Ev.ids) = n * n /\ Len(Ev.vals) = n * n
              /\ \A x, y \in 0..(n - 1) :
                   \E r \in 1..(n * n) :
                      /\ Ev.ids[r] = <<ToString(Ev.pids[x * n + y + 1]), ToString(x), ToString(y)>>
                      /\ Ev.vals[r] = Ev.q[x * n + y + 1]
     ELSE /\ Ev.vals = Ev.q
          /\ Len(Ev.ids) = (IF Ev.what = "momenta" /\ ~closed THEN 0 ELSE Ev.n)
          /\ \A x \in DOMAIN Ev.ids : Ev.ids[x] = <<ToString(x - 1)>>
          /\ Len(Ev.vals) = Len(Ev.ids)
  /\ Same

(* all of the pairs of a larger lattice: every row once, some of them known *)
SomePairs ==
  /\ Is("somepairs")
  /\ Ev.header = Header("pairs") /\ Ev.newline
  /\ Ev.rows = Ev.n * Ev.n /\ Ev.distinct = Ev.rows /\ Ev.pairs = Ev.rows
  /\ \A i \in DOMAIN Ev.some :
       LET p == Ev.some[i]
       IN  p.ids = <<ToString(p.pid)>> /\ p.vals = p.q
  /\ Same

Next == \/ Advance /\ \/ NewBravais \/ Real \/ Recip \/ BetweenPoints \/ Step
                      \/ NewLattice \/ CopyLattice \/ Shelve \/ Fetch \/ Exchange \/ Itself \/ GridOf \/ Neighbors \/ BuiltinNeighbors \/ Vec \/ Positions \/ Position \/ NeighborsOf
                      \/ Momenta \/ MomentaOf \/ SkSparse \/ SkInit \/ Sk \/ Save \/ SomePairs
        \/ Finished /\ Same
=============================================================================
