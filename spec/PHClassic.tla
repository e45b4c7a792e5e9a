------------------------------ MODULE PHClassic ------------------------------
(***************************************************************************)
(* Design of the classical persistent homology: Vietoris-Rips filtration   *)
(* of a finite weighted graph, built by lower neighbours dimension by      *)
(* dimension, then column reductions from the top dimension down with the  *)
(* clearing optimisation.  One action per added dimension and per reduced  *)
(* column.  TLC explores every weighted graph on NV vertices with weights  *)
(* 1..MaxW (weight MaxW = absent) over every prime of Primes.              *)
(***************************************************************************)
EXTENDS Simplicial, Export
CONSTANTS NV, MaxW, Primes, MaxDim
VARIABLES w, p, C, R, d, k, cleared, red, comb, pivs, bars, bnds, pc
vars == <<w, p, C, R, d, k, cleared, red, comb, pivs, bars, bnds, pc>>

V == 0 .. (NV - 1)
Pairs == {q \in V \X V : q[1] < q[2]}
maxr == MaxW
Weight(f) == [a \in 1 .. NV |-> [b \in 1 .. NV |->
    IF a = b THEN 0 ELSE IF a < b THEN f[<<a - 1, b - 1>>] ELSE f[<<b - 1, a - 1>>]]]

LexLess(s, t) == \E i \in 1 .. Len(s) : s[i] < t[i] /\ \A j \in 1 .. (i - 1) : s[j] = t[j]
Before(x, y) == Diam(w, Verts(x)) < Diam(w, Verts(y))
                \/ (Diam(w, Verts(x)) = Diam(w, Verts(y)) /\ (x = y \/ LexLess(x, y)))

Init ==
    /\ p \in Primes
    /\ \E f \in [Pairs -> 1 .. MaxW] : w = Weight(f)
    /\ C = << [i \in 1 .. NV |-> <<i - 1>>] >>
    /\ R = << [i \in 1 .. NV |-> 0] >>
    /\ d = 0 /\ k = 0 /\ cleared = {} /\ red = <<>> /\ comb = <<>> /\ pivs = {}
    /\ bars = [e \in 0 .. MaxDim |-> <<>>] /\ bnds = [e \in 0 .. MaxDim |-> <<>>]
    /\ pc = "build"

\* C[q]: simplices with q vertices.  Extend by common lower neighbours
Extend ==
    /\ pc = "build" /\ Len(C) <= MaxDim
    /\ LET top == C[Len(C)]
           low(s) == {v \in V : \A i \in 1 .. Len(s) : v < s[i] /\ W(w, v, s[i]) < maxr}
           new == UNION {{<<v>> \o top[i] : v \in low(top[i])} : i \in 1 .. Len(top)}
           srt == SetToSortSeq(new, Before)
       IN  /\ C' = Append(C, srt)
           /\ R' = Append(R, [i \in 1 .. Len(srt) |-> Diam(w, Verts(srt[i]))])
    /\ UNCHANGED <<w, p, d, k, cleared, red, comb, pivs, bars, bnds, pc>>

StartReduce ==
    /\ pc = "build" /\ Len(C) = MaxDim + 1
    /\ pc' = "reduce" /\ d' = MaxDim /\ k' = 1 /\ cleared' = {}
    /\ red' = Boundary(C[MaxDim], C[MaxDim + 1], p)
    /\ comb' = [j \in 1 .. Len(C[MaxDim + 1]) |-> UnitVec(Len(C[MaxDim + 1]), j)]
    /\ pivs' = {}
    /\ UNCHANGED <<w, p, C, R, bars, bnds>>

RECURSIVE RedCol(_, _, _)
RedCol(v, t, j) ==
    LET q == Pivot(v, p)
        K == {i \in 1 .. (j - 1) : i \notin cleared /\ Pivot(red[i], p) = q}
    IN  IF q = 0 \/ K = {} THEN [v |-> v, t |-> t]
        ELSE LET u == Min(K)
                 c == (p - MulMod(v[q], Inv(red[u][q], p), p)) % p
             IN  RedCol(VecAxpy(v, c, red[u], p), VecAxpy(t, c, comb[u], p), j)

Column ==
    /\ pc = "reduce" /\ k <= Len(red)
    /\ IF k \in cleared
       THEN UNCHANGED <<red, comb, pivs, bars, bnds>>
       ELSE LET x == RedCol(red[k], comb[k], k)
                q == Pivot(x.v, p)
            IN  /\ red' = [red EXCEPT ![k] = x.v]
                /\ comb' = [comb EXCEPT ![k] = x.t]
                /\ IF q = 0
                   THEN /\ bars' = [bars EXCEPT ![d] = Append(@,
                               [bar |-> <<R[d + 1][k], maxr>>, v |-> x.t])]
                        /\ UNCHANGED <<pivs, bnds>>
                   ELSE /\ pivs' = pivs \cup {q}
                        /\ bars' = IF R[d][q] < R[d + 1][k]
                                   THEN [bars EXCEPT ![d - 1] = Append(@,
                                      [bar |-> <<R[d][q], R[d + 1][k]>>, v |-> x.v])]
                                   ELSE bars
                        /\ bnds' = [bnds EXCEPT ![d - 1] = Append(@,
                               [bar |-> <<R[d + 1][k], maxr>>, v |-> x.v, t |-> x.t])]
    /\ k' = k + 1
    /\ UNCHANGED <<w, p, C, R, d, cleared, pc>>

DownOne ==
    /\ pc = "reduce" /\ k = Len(red) + 1 /\ d > 1
    /\ d' = d - 1 /\ k' = 1 /\ cleared' = pivs /\ pivs' = {}
    /\ red' = Boundary(C[d - 1], C[d], p)
    /\ comb' = [j \in 1 .. Len(C[d]) |-> UnitVec(Len(C[d]), j)]
    /\ UNCHANGED <<w, p, C, R, bars, bnds, pc>>

Only(s, f) == [i \in 1 .. Len(s) |-> s[i][f]]
Finish ==
    /\ pc = "reduce" /\ k = Len(red) + 1 /\ d = 1
    /\ LET ess == SetToSortSeq((1 .. NV) \ pivs, <) IN
       bars' = [bars EXCEPT ![0] = @ \o [i \in 1 .. Len(ess) |->
                   [bar |-> <<0, maxr>>, v |-> UnitVec(NV, ess[i])]]]
    /\ pc' = "done"
    /\ Out([w |-> w, p |-> p, maxr |-> maxr, maxdim |-> MaxDim,
            bars |-> [e \in 1 .. (MaxDim + 1) |-> Only(bars'[e - 1], "bar")]])
    /\ UNCHANGED <<w, p, C, R, d, k, cleared, red, comb, pivs, bnds>>

Next == Extend \/ StartReduce \/ Column \/ DownOne \/ Finish
Spec == Init /\ [][Next]_vars

Built == pc = "reduce" /\ k = 1 /\ d = MaxDim =>
    \A q \in 2 .. (MaxDim + 1) : VRLevel(NV, w, maxr, q, C[q], R[q]) = "ok"
ChainComplex == pc = "reduce" /\ k = 1 /\ d >= 2 =>
    LET lo == Boundary(C[d - 1], C[d], p)
        up == Boundary(C[d], C[d + 1], p)
    IN  \A j \in 1 .. Len(up) : \A i \in 1 .. Len(C[d - 1]) :
          Dot([x \in 1 .. Len(C[d]) |-> lo[x][i]], up[j], p) = 0
DC(e) == IF e = 0 THEN [j \in 1 .. NV |-> <<>>] ELSE Boundary(C[e], C[e + 1], p)
Post == pc = "done" =>
    \A e \in 0 .. MaxDim :
        /\ PHVerdict(R[e + 1], IF e = MaxDim THEN <<>> ELSE R[e + 2],
                     DC(e), IF e = MaxDim THEN <<>> ELSE DC(e + 1), maxr,
                     Only(bars[e], "bar"), Only(bars[e], "v"), p) = "ok"
        /\ e < MaxDim =>
           BndVerdict(R[e + 1], R[e + 2], DC(e + 1), maxr,
              Only(bnds[e], "bar"), Only(bnds[e], "v"), Only(bnds[e], "t"), p) = "ok"
=============================================================================
