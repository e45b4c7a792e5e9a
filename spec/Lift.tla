--------------------------------- MODULE Lift ---------------------------------
(* Design of the lift with radii: the last column is cancelled with the given *)
(* columns whose radius is not larger, always at the current pivot.  Explored *)
(* for all columns with distinct pivots and all radii; the machine gets stuck *)
(* exactly when no admissible combination exists.                             *)
EXTENDS GaussSpec
CONSTANTS M, S, MaxRad, p
VARIABLES G, b, rad, cur, coef, pc
vars == <<G, b, rad, cur, coef, pc>>
Vecs == [1 .. M -> 0 .. (p - 1)]

Init == /\ G \in [1 .. S -> Vecs] /\ DistinctPivots(G, p)
        /\ b \in Vecs
        /\ rad \in [1 .. (S + 1) -> 0 .. MaxRad]
        /\ cur = b /\ coef = ZeroVec(S) /\ pc = "run"

Cancel(k) ==
    /\ pc = "run" /\ Pivot(cur, p) # 0
    /\ rad[k] <= rad[S + 1] /\ Pivot(G[k], p) = Pivot(cur, p)
    /\ LET q == MulMod(cur[Pivot(cur, p)], Inv(G[k][Pivot(cur, p)], p), p)
       IN  /\ cur'  = VecAxpy(cur, (p - q) % p, G[k], p)
           /\ coef' = [coef EXCEPT ![k] = (coef[k] + q) % p]
    /\ UNCHANGED <<G, b, rad, pc>>
Done   == pc = "run" /\ Pivot(cur, p) = 0 /\ pc' = "done"
          /\ UNCHANGED <<G, b, rad, cur, coef>>
Stuck  == /\ pc = "run" /\ Pivot(cur, p) # 0
          /\ ~ \E k \in 1 .. S : rad[k] <= rad[S + 1] /\ Pivot(G[k], p) = Pivot(cur, p)
          /\ pc' = "raise" /\ UNCHANGED <<G, b, rad, cur, coef>>
Next == (\E k \in 1 .. S : Cancel(k)) \/ Done \/ Stuck
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* as the matrix (G | b) with s = S, in the terms of the call
Mat   == [i \in 1 .. M |-> [j \in 1 .. (S + 1) |-> IF j <= S THEN G[j][i] ELSE b[i]]]
RedMat == [i \in 1 .. M |-> [j \in 1 .. (S + 1) |-> IF j <= S THEN G[j][i] ELSE cur[i]]]
TMat  == [i \in 1 .. (S + 1) |-> [j \in 1 .. (S + 1) |->
            IF j <= S \/ i = S + 1 THEN IF i = j THEN 1 ELSE 0
            ELSE (p - coef[i]) % p]]
Post == /\ pc = "done" => RadVerdict(Mat, M, S + 1, rad, S, RedMat, TMat, "", p) = "ok"
        /\ pc = "raise" => RadVerdict(Mat, M, S + 1, rad, S, <<>>, <<>>, "RuntimeError", p) = "ok"
Terminates == <>(pc # "run")
=============================================================================
