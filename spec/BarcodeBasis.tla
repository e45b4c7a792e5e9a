----------------------------- MODULE BarcodeBasis -----------------------------
(***************************************************************************)
(* The barcode basis object as a state machine: bars, the broken           *)
(* differentials (column i: what generator i equals once it dies) and a    *)
(* vector v expressed in the basis.  Sorting permutes everything at once;  *)
(* passing a radius rewrites v.  Both orders of these operations describe  *)
(* the same element: the machine carries the element in the original       *)
(* numbering (w) next to the permuted one and they must stay in step.      *)
(***************************************************************************)
EXTENDS Persist, Export
CONSTANTS N, MaxR, p
VARIABLES bars0, bd0, bars, bd, v, w, perm, r, sorted
vars == <<bars0, bd0, bars, bd, v, w, perm, r, sorted>>

Bars == {b \in (0 .. MaxR) \X (0 .. MaxR) : b[1] < b[2]}
Id   == [i \in 1 .. N |-> i]
Init ==
    /\ bars0 \in [1 .. N -> Bars]
    /\ bd0 \in [1 .. N -> [1 .. N -> 0 .. (p - 1)]]
    /\ \A i, j \in 1 .. N : bd0[i][j] # 0 =>
          i # j /\ bars0[j][1] <= bars0[i][2] /\ bars0[i][2] < bars0[j][2]
    /\ v \in [1 .. N -> 0 .. (p - 1)]
    /\ bars = bars0 /\ bd = bd0 /\ w = v /\ perm = Id
    /\ r = 0 /\ sorted = FALSE

Upd(x, bs, b, rr) ==
    LET D == {i \in 1 .. N : bs[i][2] = rr}
    IN  [i \in 1 .. N |-> ((IF i \in D THEN 0 ELSE x[i])
          + FoldSet(LAMBDA k, acc : (acc + b[k][i] * x[k]) % p, 0, D)) % p]

Orders == {o \in Permutations(1 .. N) : InOrder([k \in 1 .. N |-> bars[o[k]]])}
Sort == /\ ~ sorted
        /\ \E o \in Orders :
             /\ bars' = [k \in 1 .. N |-> bars[o[k]]]
             /\ bd'   = [k \in 1 .. N |-> [i \in 1 .. N |-> bd[o[k]][o[i]]]]
             /\ v'    = [k \in 1 .. N |-> v[o[k]]]
             /\ perm' = [k \in 1 .. N |-> perm[o[k]]]
        /\ sorted' = TRUE /\ UNCHANGED <<bars0, bd0, w, r>>
Pass == /\ r < MaxR /\ r' = r + 1
        /\ v' = Upd(v, bars, bd, r + 1)
        /\ w' = Upd(w, bars0, bd0, r + 1)
        /\ Out([bars |-> bars, bd |-> bd, v |-> v, r |-> r + 1, p |-> p])
        /\ UNCHANGED <<bars0, bd0, bars, bd, perm, sorted>>
Next == Sort \/ Pass
Spec == Init /\ [][Next]_vars

InStep   == \A k \in 1 .. N : v[k] = w[perm[k]] /\ bars[k] = bars0[perm[k]]
StandardOrder == sorted => InOrder(bars)
\* nothing is expressed in generators that are dead
NoDead   == r > 0 => \A i \in 1 .. N : bars0[i][2] = r => w[i] = 0
=============================================================================
