------------------------------ MODULE GaussCol ------------------------------
(***************************************************************************)
(* Design of the column reduction: left-to-right additions, one action per *)
(* addition.  TLC explores it for every M x N matrix over every prime of   *)
(* Primes; at the end the call-level relation of GaussSpec must hold.      *)
(* Finished behaviours are the inputs replayed into the implementation.    *)
(***************************************************************************)
EXTENDS GaussSpec, Export
CONSTANTS M, N, Primes
VARIABLES A, p, R, T, j, pc
vars == <<A, p, R, T, j, pc>>

Init ==
    /\ p \in Primes
    /\ A \in [1 .. M -> [1 .. N -> 0 .. (p - 1)]]
    /\ R = [k \in 1 .. N |-> ColOf(A, k)]
    /\ T = [k \in 1 .. N |-> UnitVec(N, k)]
    /\ j = 1
    /\ pc = "run"

\* subtract from column j the multiple of column k that cancels its pivot
AddColumn(k) ==
    /\ pc = "run" /\ j <= N /\ k < j
    /\ Pivot(R[j], p) # 0 /\ Pivot(R[k], p) = Pivot(R[j], p)
    /\ LET piv == Pivot(R[j], p)
           q   == (p - MulMod(R[j][piv], Inv(R[k][piv], p), p)) % p
       IN  /\ R' = [R EXCEPT ![j] = VecAxpy(R[j], q, R[k], p)]
           /\ T' = [T EXCEPT ![j] = VecAxpy(T[j], q, T[k], p)]
    /\ UNCHANGED <<A, p, j, pc>>

NextColumn ==
    /\ pc = "run" /\ j <= N
    /\ \A k \in 1 .. (j - 1) : Pivot(R[j], p) = 0 \/ Pivot(R[k], p) # Pivot(R[j], p)
    /\ j' = j + 1
    /\ UNCHANGED <<A, p, R, T, pc>>

Finish ==
    /\ pc = "run" /\ j = N + 1
    /\ pc' = "done"
    /\ Out([A |-> A, p |-> p, low |-> [k \in 1 .. N |-> Pivot(R[k], p)]])
    /\ UNCHANGED <<A, p, R, T, j>>

Next == (\E k \in 1 .. N : AddColumn(k)) \/ NextColumn \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Invariant ==
    /\ ProductHolds(A, T, R, p)
    /\ UnitUpper(T, p)
    /\ DistinctPivots(SubSeq(R, 1, j - 1), p)
Post == pc = "done" => GaussVerdict(A, M, N, Transpose(R), Transpose(T), p) = "ok"
\* number of non zero columns = rank
RankIsCount == pc = "done" =>
    Cardinality({k \in 1 .. N : Pivot(R[k], p) # 0})
        = Rank([k \in 1 .. N |-> ColOf(A, k)], p)
\* every addition moves the pivot up: the while loop terminates
PivotDecreases == [][\A k \in 1 .. N : R'[k] # R[k] => Pivot(R'[k], p) < Pivot(R[k], p)]_vars
Terminates == <>(pc = "done")
=============================================================================
