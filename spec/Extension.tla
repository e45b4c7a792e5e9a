------------------------------ MODULE Extension ------------------------------
(***************************************************************************)
(* Design of the extension step: the classes on one diagonal of the last   *)
(* page generate the homology, but a class that dies on its own may be     *)
(* equal to a combination of the classes still alive (bd).  The machine    *)
(* sweeps over the radii; V is the space of relations found so far.  A     *)
(* class of the answer is born with every generator that is independent of *)
(* the relations and the older generators, and dies when a relation makes  *)
(* it dependent on older ones (elder rule).                                *)
(***************************************************************************)
EXTENDS Persist, Export
CONSTANTS N, MaxR, Primes
VARIABLES bars, bd, p, r, open, closed, pc
vars == <<bars, bd, p, r, open, closed, pc>>

Bars == {b \in (0 .. MaxR) \X (0 .. MaxR) : b[1] < b[2]}
Init ==
    /\ p \in Primes
    /\ bars \in {s \in [1 .. N -> Bars] : InOrder(s)}
    /\ bd \in [1 .. N -> [1 .. N -> 0 .. (p - 1)]]
    /\ \A i, j \in 1 .. N : bd[i][j] # 0 =>
          j > i /\ bars[j][1] <= bars[i][2] /\ bars[i][2] < bars[j][2]
    /\ r = 0 /\ open = <<>> /\ closed = <<>> /\ pc = "run"

Relations(s) ==
    LET dead == SetToSortSeq({i \in 1 .. N : bars[i][2] <= s}, <)
    IN  [k \in 1 .. Len(dead) |-> [i \in 1 .. N |->
            ((IF i = dead[k] THEN 1 ELSE 0) - bd[dead[k]][i]) % p]]

\* scan the open classes, oldest first: those dependent on relations and older
\* classes die; then the generators born at r enter
Survive(s) ==
    FoldLeft(LAMBDA acc, o :
        LET E == EchInsert(acc.E, o.v, p) IN
        IF Len(E) = Len(acc.E) THEN [acc EXCEPT !.dead = Append(@, o)]
        ELSE [acc EXCEPT !.E = E, !.live = Append(@, o)],
        [E |-> Echelon(Relations(s), p), live |-> <<>>, dead |-> <<>>],
        open \o [k \in 1 .. Cardinality({i \in 1 .. N : bars[i][1] = s}) |->
                   [b |-> s, v |-> UnitVec(N,
                        SetToSortSeq({i \in 1 .. N : bars[i][1] = s}, <)[k])]])
Sweep ==
    /\ pc = "run" /\ r < MaxR
    /\ LET x == Survive(r) IN
       /\ open' = x.live
       /\ closed' = closed \o SelectSeq(
             [k \in 1 .. Len(x.dead) |-> <<x.dead[k].b, r>>], LAMBDA b : b[1] < b[2])
    /\ r' = r + 1 /\ UNCHANGED <<bars, bd, p, pc>>
CutOff ==
    /\ pc = "run" /\ r = MaxR
    /\ closed' = closed \o [k \in 1 .. Len(open) |-> <<open[k].b, MaxR>>]
    /\ open' = <<>> /\ pc' = "done"
    /\ Out([bars |-> bars, bd |-> bd, p |-> p, maxr |-> MaxR, out |-> closed'])
    /\ UNCHANGED <<bars, bd, p, r>>
Next == Sweep \/ CutOff
Spec == Init /\ [][Next]_vars
Post == pc = "done" => BrokenVerdict(bars, bd, MaxR, closed, p) = "ok"
\* with no relations between classes the diagonal is a direct sum
Trivial == pc = "done" /\ (\A i, j \in 1 .. N : bd[i][j] = 0) =>
    \A b \in Bars : Cardinality({k \in 1 .. Len(closed) : closed[k] = b})
                  = Cardinality({k \in 1 .. N : bars[k] = b})
=============================================================================
