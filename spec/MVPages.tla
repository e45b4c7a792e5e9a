------------------------------- MODULE MVPages -------------------------------
(***************************************************************************)
(* The Mayer-Vietoris spectral sequence as a state machine.                *)
(*                                                                         *)
(* A behaviour starts from a weighted graph whose vertices are labelled    *)
(* with the sets of the cover containing them (adjacent vertices have      *)
(* comparable labels, so that every simplex lies in one of the sets), goes *)
(* through the radii, and at every radius through the pages: Turn replaces *)
(* the page by the homology of its differential, computed by definition    *)
(* from Z^r_a = {x in F_a : dx in F_(a - r)}.                              *)
(*                                                                         *)
(* Guarantees: dimensions agree with those read off one column reduction   *)
(* (PageDims, the oracle of the recorded runs), never grow, are stable     *)
(* from page M on, and add up along a diagonal to the Betti numbers of the *)
(* whole Rips complex (what the library promises to compute).  Finished    *)
(* behaviours are replayed into the library.                               *)
(***************************************************************************)
EXTENDS DoubleComplex, Export
CONSTANTS NV, M, MaxW, Top, Primes, Labels
VARIABLES w, lab, p, t, r, pages, K
vars == <<w, lab, p, t, r, pages, K>>
\* pages: the pages computed at this radius (pages[1] = page 0), E the last;
\* K: cells, generators and differentials of the total complex at radius t
state == <<w, lab, p, t, r, pages>>
E == pages[Len(pages)]

Sets == 0 .. (M - 1)
V    == 0 .. (NV - 1)
Pair == {q \in V \X V : q[1] < q[2]}
Comparable(x, y) == x \subseteq y \/ y \subseteq x
Combos(a) == SetToSortSeq(kSubset(a, Sets),
                LAMBDA x, y : LexLess(SetToSortSeq(x, <), SetToSortSeq(y, <)))
CellsOf(l) == [a \in 1 .. M |-> LET C == TLCEval(Combos(a)) IN [c \in 1 .. Len(C) |->
             [s |-> SetToSortSeq(C[c], <), pts |-> {v \in V : C[c] \subseteq l[v + 1]}]]]
Complex(ww, cells, tt) ==
    LET g == TLCEval([m \in 1 .. (Top + 2) |-> TotGens(ww, cells, tt, Top, m - 1)])
    IN  [cells |-> cells, g |-> g,
         D |-> TLCEval([m \in 1 .. (Top + 1) |-> TotCols(g[m], g[m + 1], p)])]

\* ---- filtered linear algebra ----------------------------------------------------
Null(rows, cols) ==      \* basis of the kernel, as coefficient vectors
    LET n == Len(cols)
        R == Reduction(n + rows, [j \in 1 .. n |-> UnitVec(n, j) \o cols[j]], p)
    IN  {SubSeq(R.T[q].col, 1, n) : q \in {q \in 1 .. n : R.T[q].col # <<>>}}
Comb(cols, x, rows) == FoldLeftDomain(LAMBDA acc, j : IF x[j] = 0 THEN acc
                          ELSE TLCEval(VecAxpy(acc, x[j], cols[j], p)), ZeroVec(rows), x)

\* boundaries of a basis of Z^q_a in degree m: D the columns of the
\* differential, up/lo the generators
DZ(up, lo, D, a, q) ==
    LET js == SelectSeq([j \in 1 .. Len(up) |-> j], LAMBDA j : up[j].a <= a)
        is == SelectSeq([i \in 1 .. Len(lo) |-> i], LAMBDA i : lo[i].a > a - q)
        sub == TLCEval([k \in 1 .. Len(js) |-> [h \in 1 .. Len(is) |-> D[js[k]][is[h]]]])
        cs == TLCEval([k \in 1 .. Len(js) |-> D[js[k]]])
    IN  {Comb(cs, x, Len(lo)) : x \in Null(Len(is), sub)}

\* rank of d^q from column a of the diagonal m to column a - q
RankD(up, lo, D, a, q) ==
    IF a - q < 0 \/ Len(up) = 0 \/ Len(lo) = 0 THEN 0
    ELSE LET low == {UnitVec(Len(lo), i) : i \in {i \in 1 .. Len(lo) : lo[i].a < a - q}}
             R == SetToSeq(low) \o SetToSeq(DZ(up, lo, D, a - 1, q - 1))
             B == TLCEval(Echelon(R, p))
         IN  Len(FoldLeft(LAMBDA acc, v : EchInsert(acc, v, p), B,
                          SetToSeq(DZ(up, lo, D, a, q)))) - Len(B)

\* E[m + 1][a + 1]: dimension at column a of the diagonal m
Zero(k) == TLCEval([m \in 1 .. (Top + 1) |-> [a \in 1 .. M |->
            Cardinality({i \in 1 .. Len(k.g[m]) : k.g[m][i].a = a - 1})]])
Turned(e, q) ==
    LET g == K.g
        D == K.D
        \* rank of d^q out of column a - 1 of the diagonal m - 1
        rk == TLCEval([m \in 1 .. (Top + 2) |-> [a \in 1 .. M |->
                IF m = 1 THEN 0 ELSE RankD(g[m], g[m - 1], D[m - 1], a - 1, q)]])
    IN  TLCEval([m \in 1 .. (Top + 1) |-> [a \in 1 .. M |->
            e[m][a] - rk[m][a] - (IF a + q <= M THEN rk[m + 1][a + q] ELSE 0)]])

\* vacuity: the second differential is not always zero
D2 == IF r = M + 1 /\ \E m \in 1 .. Top : \E a \in 1 .. M : pages[4][m][a] # pages[3][m][a]
      THEN 1 ELSE 0

\* ---- behaviours -------------------------------------------------------------------
Init ==
    /\ lab \in Labels
    /\ LET edges == {q \in Pair : Comparable(lab[q[1] + 1], lab[q[2] + 1])}
       IN  \E f \in [edges -> 1 .. MaxW] :
             w = [i \in 1 .. NV |-> [j \in 1 .. NV |->
                    IF i = j THEN 0
                    ELSE LET q == IF i < j THEN <<i - 1, j - 1>> ELSE <<j - 1, i - 1>>
                         IN  IF q \in edges THEN f[q] ELSE MaxW]]
    /\ p \in Primes /\ t = 0 /\ r = 0
    /\ K = Complex(w, TLCEval(CellsOf(lab)), 0)
    /\ pages = <<Zero(K)>>
Turn  == /\ r <= M
         /\ pages' = Append(pages, Turned(E, r)) /\ r' = r + 1
         /\ UNCHANGED <<w, lab, p, t, K>>
Raise == /\ r = M + 1 /\ t < MaxW - 1
         /\ t' = t + 1 /\ r' = 0
         /\ K' = Complex(w, K.cells, t + 1)
         /\ pages' = <<Zero(K')>>
         /\ UNCHANGED <<w, lab, p>>
Finish == /\ r = M + 1 /\ t = MaxW - 1
          /\ Out([w |-> w, p |-> p, maxr |-> MaxW, top |-> Top, d2 |-> D2,
                  sets |-> [s \in 1 .. M |-> SetToSortSeq({v \in V : s - 1 \in lab[v + 1]}, <)]])
          /\ UNCHANGED vars
Next == Turn \/ Raise \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- guarantees ---------------------------------------------------------------------
Oracle == r = M + 1 =>
    LET d == PageDims(w, K.cells, t, Top, M + 1, p)
    IN  \A q \in 1 .. (M + 1) : \A a \in 1 .. M : \A b \in 1 .. Top :
            a + b - 2 <= Top => d[q][a][b] = pages[q + 1][a + b - 1][a]
\* what a page loses at a position: the ranks of the differentials arriving
\* there and leaving from there
Ranks == r = M + 1 =>
    LET tr == TotReduction(w, K.cells, t, Top, p)
        d == DimsOf(tr, M, Top, M + 1)
        k == RanksOf(tr, M, Top, M)
    IN  \A q \in 1 .. M : \A a \in 1 .. M : \A b \in 1 .. Top :
          a + b - 2 <= Top =>
            d[q][a][b] - d[q + 1][a][b] = k[q][a][b] +
                (IF a - q >= 1 /\ b + q - 1 <= Top THEN k[q][a - q][b + q - 1]
                 ELSE IF a - q >= 1 THEN d[q][a][b] - d[q + 1][a][b] - k[q][a][b] ELSE 0)
NonNegative == \A m \in 1 .. (Top + 1) : \A a \in 1 .. M : E[m][a] >= 0
Betti(k) == \* of the whole Rips complex at radius t
    LET L == TLCEval(RipsLevels(w, V, t, k + 1))
        rank(j) == IF j = 0 THEN 0 ELSE Rank(BoundaryCols(L[j], L[j + 1], p), p)
    IN  Len(L[k + 1]) - rank(k) - rank(k + 1)
Converges == r = M + 1 =>
    /\ pages[M + 2] = pages[M + 1]
    /\ \A m \in 0 .. (Top - 1) :
         FoldFunction(LAMBDA x, y : x + y, 0, E[m + 1]) = Betti(m)
Shrinks == \A q \in 1 .. (Len(pages) - 1) : \A m \in 1 .. (Top + 1) : \A a \in 1 .. M :
              pages[q + 1][m][a] <= pages[q][m][a]
\* ---- labellings ----------------------------------------------------------------------
Nonempty == SUBSET Sets \ {{}}
Code(x) == FoldSet(LAMBDA s, acc : acc + 2 ^ s, 0, x)
AllLabels == {l \in [1 .. NV -> Nonempty] : \A i \in 1 .. (NV - 1) : Code(l[i]) <= Code(l[i + 1])}
\* two points everywhere, one in every pairwise intersection
TwoThree == {<<{0, 1}, {0, 2}, {1, 2}, {0, 1, 2}, {0, 1, 2}>>}
\* the same with a point in a single set
TwoThreeOne == {<<{0}, {0, 1}, {0, 2}, {1, 2}, {0, 1, 2}, {0, 1, 2}>>}
=============================================================================
