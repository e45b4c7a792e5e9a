------------------------------- MODULE Zigzag --------------------------------
(***************************************************************************)
(* How a local cycle is continued to a cycle of the total complex.          *)
(*                                                                         *)
(* A behaviour starts from a cover of a weighted graph (as MVPages), a      *)
(* position (a, b) and a cycle of the local complexes there.  Step takes    *)
(* the signed Cech differential of the last chain; when it bounds in every  *)
(* region the chains found continue at (a - 1, b + 1), otherwise (or in     *)
(* column 0) the behaviour ends: Stop.                                      *)
(*                                                                         *)
(* Guarantees: the two differentials square to zero and commute, chains of  *)
(* cycles restrict to cycles, and the total boundary of what has been found *)
(* is the signed Cech differential of the last chain.  Finished behaviours  *)
(* are replayed into the library: it must continue exactly those cycles     *)
(* that the specification continues.                                        *)
(***************************************************************************)
EXTENDS Cech, Export
CONSTANTS NV, M, MaxW, Top, Primes, Labels
VARIABLES w, lab, p, a0, b0, a, b, z, acc, done
vars == <<w, lab, p, a0, b0, a, b, z, acc, done>>

Sets == 0 .. (M - 1)
V    == 0 .. (NV - 1)
Pair == {q \in V \X V : q[1] < q[2]}
Comparable(x, y) == x \subseteq y \/ y \subseteq x
Combos(k) == SetToSortSeq(kSubset(k, Sets),
                LAMBDA x, y : LexLess(SetToSortSeq(x, <), SetToSortSeq(y, <)))
Cells == [k \in 1 .. M |-> LET C == TLCEval(Combos(k)) IN [c \in 1 .. Len(C) |->
             [s |-> SetToSortSeq(C[c], <), pts |-> {v \in V : C[c] \subseteq lab[v + 1]}]]]
T == MaxW - 1

\* generators <<cell, simplex>> at (x, y), cell by cell
Gens(cs, x, y) == FlattenSeq([c \in 1 .. Len(cs[x + 1]) |->
    LET L == RipsLevels(w, cs[x + 1][c].pts, T, y)[y + 1]
    IN  [i \in 1 .. Len(L) |-> <<c, L[i].s>>]])
Unit(g) == <<<<g[1], g[2], 1>>>>
\* a chain as a vector over a list of generators, and back
Vec(ch, gs) == LET t == Terms(ch, p)
               IN  TLCEval([i \in 1 .. Len(gs) |->
                     LET m == {x \in t : x[1] = gs[i][1] /\ x[2] = gs[i][2]}
                     IN  IF m = {} THEN 0 ELSE (CHOOSE x \in m : TRUE)[3]])
Chain(v, gs) == LET is == SelectSeq([i \in 1 .. Len(gs) |-> i], LAMBDA i : v[i] # 0)
                IN  [k \in 1 .. Len(is) |-> <<gs[is[k]][1], gs[is[k]][2], v[is[k]]>>]
\* combinations x of the columns with sum x_j cols[j] = 0 (a basis)
Null(rows, cols) ==
    LET n == Len(cols)
        R == Reduction(n + rows, [j \in 1 .. n |-> UnitVec(n, j) \o cols[j]], p)
    IN  {SubSeq(R.T[q].col, 1, n) : q \in {q \in 1 .. n : R.T[q].col # <<>>}}
\* a solution x of sum x_j cols[j] = y, or <<>> when there is none
Solve(rows, cols, y) ==
    LET n == Len(cols)
        N == {x \in Null(rows, <<y>> \o cols) : x[1] # 0}
    IN  IF N = {} THEN <<>>
        ELSE LET x == CHOOSE x \in N : TRUE
                 q == (p - Inv(x[1], p)) % p
             IN  <<TRUE>> \o [j \in 1 .. n |-> MulMod(q, x[j + 1], p)]

Cycles(cs, x, y) ==
    LET gs == TLCEval(Gens(cs, x, y))
        lo == IF y = 0 THEN <<>> ELSE TLCEval(Gens(cs, x, y - 1))
        cols == TLCEval([j \in 1 .. Len(gs) |-> Vec(VertD(Unit(gs[j])), lo)])
    IN  {Chain(v, gs) : v \in Null(Len(lo), cols)}

Init ==
    /\ lab \in Labels
    /\ LET edges == {q \in Pair : Comparable(lab[q[1] + 1], lab[q[2] + 1])}
       IN  \E f \in [edges -> 1 .. MaxW] :
             w = [i \in 1 .. NV |-> [j \in 1 .. NV |->
                    IF i = j THEN 0
                    ELSE LET q == IF i < j THEN <<i - 1, j - 1>> ELSE <<j - 1, i - 1>>
                         IN  IF q \in edges THEN f[q] ELSE MaxW]]
    /\ p \in Primes
    /\ a0 \in 1 .. (M - 1) /\ b0 \in 0 .. (Top - 1) /\ a = a0 /\ b = b0
    /\ LET B == TLCEval(Cycles(Cells, a0, b0))
       IN  z \in B \cup {u \o Scale(v, 0 - 1, p) : u \in B, v \in B}
    /\ Terms(z, p) # {}
    /\ acc = <<z>> /\ done = FALSE

\* the sign that makes the differentials anticommute
Signed(cs, ch, x, y) == Scale(CechD(ch, cs[x + 1], cs[x]), IF y % 2 = 0 THEN 1 ELSE 0 - 1, p)
Lift(cs) ==
    LET y  == Signed(cs, z, a, b)
        lo == TLCEval(Gens(cs, a - 1, b))
        up == TLCEval(Gens(cs, a - 1, b + 1))
        x  == Solve(Len(lo), TLCEval([j \in 1 .. Len(up) |-> Vec(VertD(Unit(up[j])), lo)]),
                    TLCEval([i \in 1 .. Len(lo) |-> (0 - Vec(y, lo)[i]) % p]))
    IN  IF x = <<>> THEN <<FALSE>> ELSE <<TRUE, Chain(Tail(x), up)>>
Step == /\ ~ done /\ a > 0
        /\ LET l == Lift(Cells)
           IN  IF l[1]
               THEN /\ z' = l[2] /\ acc' = Append(acc, l[2])
                    /\ a' = a - 1 /\ b' = b + 1 /\ done' = FALSE
               ELSE done' = TRUE /\ UNCHANGED <<z, acc, a, b>>
        /\ UNCHANGED <<w, lab, p, a0, b0>>
Stop == /\ (done \/ a = 0)
        /\ Out([w |-> w, p |-> p, maxr |-> MaxW, top |-> Top + 1, a |-> a0, b |-> b0,
                z |-> acc[1], steps |-> Len(acc) - 1,
                sets |-> [s \in 1 .. M |-> SetToSortSeq({v \in V : s - 1 \in lab[v + 1]}, <)]])
        /\ UNCHANGED vars
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars

\* ---- guarantees ------------------------------------------------------------------
\* on every generator (these do not depend on the chain: judged at the start)
Complex == Len(acc) = 1 /\ ~ done =>
    LET cs == Cells IN
    \A g \in Range(Gens(cs, a0, b0)) :
        LET u == Unit(g) IN
        /\ a0 >= 2 => Terms(CechD(CechD(u, cs[a0 + 1], cs[a0]), cs[a0], cs[a0 - 1]), p) = {}
        /\ Terms(VertD(VertD(u)), p) = {}
        /\ Terms(CechD(VertD(u), cs[a0 + 1], cs[a0]), p)
             = Terms(VertD(CechD(u, cs[a0 + 1], cs[a0])), p)
\* restrictions of cycles are cycles in their regions
Restricts == LET cs == Cells IN
    Terms(VertD(acc[1]), p) = {} /\ Terms(VertD(CechD(acc[1], cs[a0 + 1], cs[a0])), p) = {}
\* the total boundary of acc: everything cancels but for the last term
Zigzags == LET cs == Cells IN
    \A k \in 2 .. Len(acc) :
        Terms(Signed(cs, acc[k - 1], a0 - k + 2, b0 + k - 2) \o VertD(acc[k]), p) = {}
\* ---- labellings -------------------------------------------------------------------
Nonempty == SUBSET Sets \ {{}}
Code(x) == FoldSet(LAMBDA s, r : r + 2 ^ s, 0, x)
AllLabels == {l \in [1 .. NV -> Nonempty] : \A i \in 1 .. (NV - 1) : Code(l[i]) <= Code(l[i + 1])}
\* two points everywhere, one in every pairwise intersection
TwoThree == {<<{0, 1}, {0, 2}, {1, 2}, {0, 1, 2}, {0, 1, 2}>>}
Triple == {<<{0}, {0, 1}, {0, 1, 2}, {0, 1, 2}>>, <<{0, 1}, {1, 2}, {0, 1, 2}, {0, 1, 2}>>}
=============================================================================
