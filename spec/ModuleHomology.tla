---------------------------- MODULE ModuleHomology ----------------------------
(***************************************************************************)
(* Design of the homology of a chain complex of persistence modules        *)
(*      B3 --U--> B2 --D--> B1                                              *)
(* in the middle position: first image and kernel, then the quotient       *)
(* kernel / image computed by a relative sweep (radius by radius, elder    *)
(* rule modulo the image).  All complexes within the constants.            *)
(***************************************************************************)
EXTENDS Persist
CONSTANTS N1, N2, N3, MaxR, p
VARIABLES B1, B2, B3, D, U, r, open, closed, pc
vars == <<B1, B2, B3, D, U, r, open, closed, pc>>

Bars == {b \in (0 .. MaxR) \X (0 .. MaxR) : b[1] < b[2]}
Sorted(n) == {s \in [1 .. n -> Bars] : InOrder(s)}
Morph(A, B) == {C \in [1 .. Len(A) -> [1 .. Len(B) -> 0 .. (p - 1)]] :
    \A j \in 1 .. Len(A) : \A i \in 1 .. Len(B) : C[j][i] # 0 =>
        B[i][1] <= A[j][1] /\ A[j][1] < B[i][2] /\ B[i][2] <= A[j][2]}
Composes == \A j \in 1 .. N3 :
    LET s == B3[j][1] IN \A i \in Alive(B1, s) :
        Dot([k \in 1 .. N2 |-> D[k][i]], Keep(U[j], Alive(B2, s)), p) = 0

Init == /\ B1 \in Sorted(N1) /\ B2 \in Sorted(N2) /\ B3 \in Sorted(N3)
        /\ D \in Morph(B2, B1) /\ U \in Morph(B3, B2) /\ Composes
        /\ r = 0 /\ open = <<>> /\ closed = <<>> /\ pc = "run"

\* at radius r: classes dependent on boundaries and older classes die, new
\* cycles independent of everything older are born
Boundaries == Sub(U, [i \in 1 .. N2 |-> i], AliveSeq(B3, r))
Inside(v)  == Keep(v, Alive(B2, r))
Sweep ==
    /\ pc = "run" /\ r <= MaxR
    /\ LET bnd == Echelon([k \in 1 .. Len(Boundaries) |-> Inside(Boundaries[k])], p)
           new == CycleEchelon(B1, B2, D, r, p)
           x == FoldLeft(LAMBDA acc, o :
                  LET E == EchInsert(acc.E, Inside(o.v), p) IN
                  IF Len(E) = Len(acc.E) THEN [acc EXCEPT !.dead = Append(@, o)]
                  ELSE [acc EXCEPT !.E = E, !.live = Append(@, o)],
                  [E |-> bnd, live |-> <<>>, dead |-> <<>>],
                  open \o [k \in 1 .. Len(new) |-> [b |-> r, v |-> new[k]]])
       IN  /\ open' = x.live
           /\ closed' = closed \o SelectSeq([k \in 1 .. Len(x.dead) |->
                  [bar |-> <<x.dead[k].b, r>>, v |-> x.dead[k].v]],
                  LAMBDA y : y.bar[1] < y.bar[2])
    /\ r' = r + 1 /\ UNCHANGED <<B1, B2, B3, D, U, pc>>
Finish == /\ pc = "run" /\ r = MaxR + 1 /\ pc' = "done"
          /\ UNCHANGED <<B1, B2, B3, D, U, r, open, closed>>
Next == Sweep \/ Finish
Spec == Init /\ [][Next]_vars

Post == pc = "done" =>
    /\ open = <<>>
    \* barcode as required of the implementation
    /\ LET hb == [k \in 1 .. Len(closed) |-> closed[k].bar]
           S  == 0 .. MaxR
       IN  SameRanks(hb, LAMBDA a, s :
              LET E == Echelon(Sub(U, AliveSeq(B2, s), AliveSeq(B3, s)), p)
              IN  Len(FoldLeft(LAMBDA acc, z : EchInsert(acc, At(z, AliveSeq(B2, s)), p),
                       E, CycleEchelon(B1, B2, D, a, p))) - Len(E), S)
    \* Euler characteristic at every radius: |B2| = cycles + rank D and
    \* homology = cycles - rank U
    /\ \A s \in 0 .. MaxR :
         Cardinality({k \in 1 .. Len(closed) : closed[k].bar[1] <= s /\ s < closed[k].bar[2]})
         = (Cardinality(Alive(B2, s)) - Rank(Sub(D, AliveSeq(B1, s), AliveSeq(B2, s)), p))
           - Rank(Sub(U, AliveSeq(B2, s), AliveSeq(B3, s)), p)
=============================================================================
