---------------------------- MODULE DoubleComplex ----------------------------
(***************************************************************************)
(* Reference semantics for the Mayer-Vietoris spectral sequence of a       *)
(* filtered Rips complex with a cover.                                     *)
(*                                                                         *)
(* A point set is 0..n-1 with a weight matrix w; the Rips complex at       *)
(* radius t has the simplices of diameter <= t (and < maxr).  A cover is a *)
(* sequence of regions indexed by the simplices of a nerve: cells[a + 1]   *)
(* is the sequence of records [s |-> nerve simplex, pts |-> points] of     *)
(* nerve dimension a.                                                      *)
(*                                                                         *)
(* The total complex at radius t is filtered by nerve dimension; dimension *)
(* counts of every page are read off the column reduction of its           *)
(* differential: a pair with filtration difference k is alive on the pages *)
(* 1..k and gone on page k + 1, an unpaired generator is alive on all.     *)
(***************************************************************************)
EXTENDS Simplicial

\* ---- standard column reduction ------------------------------------------------
\* by pivots: T[i] is the reduced column with pivot i (<<>> when none)
RECURSIVE PivReduce(_, _, _)
PivReduce(T, v, p) ==
    LET q == Pivot(v, p)
    IN  IF q = 0 \/ T[q].col = <<>> THEN v
        ELSE PivReduce(T, VecAxpy(v, (p - MulMod(v[q], T[q].inv, p)) % p, T[q].col, p), p)

\* rows: number of rows; cols: sequence of columns.
\* Result: [piv |-> pivot of every reduced column (0 if zero),
\*          T   |-> table of reduced columns by pivot]
Reduction(rows, cols, p) ==
    FoldLeftDomain(
        LAMBDA acc, j :
            LET v == PivReduce(acc.T, cols[j], p)
                q == Pivot(v, p)
            IN  IF q = 0 THEN [acc EXCEPT !.piv = Append(@, 0)]
                ELSE [piv |-> Append(acc.piv, q),
                      T |-> [acc.T EXCEPT ![q] =
                                [col |-> VecMod(v, p), inv |-> Inv(v[q], p), at |-> j]]],
        [piv |-> <<>>, T |-> [i \in 1 .. rows |-> [col |-> <<>>, inv |-> 0, at |-> 0]]],
        cols)

\* ---- Rips complex of a set of points -----------------------------------------
LexLess(s, t) == \E i \in 1 .. Len(s) : s[i] < t[i] /\ \A j \in 1 .. (i - 1) : s[j] = t[j]

RECURSIVE Grow(_, _, _, _, _)
\* levels k..top: sets of records [s |-> increasing simplex, r |-> diameter]
Grow(w, P, t, lev, left) ==
    IF left = 0 THEN <<lev>>
    ELSE LET ext(x) == {v \in P : v < x.s[1] /\ \A i \in 1 .. Len(x.s) : W(w, v, x.s[i]) <= t}
             new == UNION {{[s |-> <<v>> \o x.s,
                             r |-> Max({x.r} \cup {W(w, v, x.s[i]) : i \in 1 .. Len(x.s)})]
                            : v \in ext(x)} : x \in lev}
         IN  <<lev>> \o Grow(w, P, t, new, left - 1)

\* levels 0..top of the Rips complex on the points P with diameters <= t, as
\* sequences sorted by diameter
RipsLevels(w, P, t, top) ==
    LET L == Grow(w, P, t, {[s |-> <<v>>, r |-> 0] : v \in P}, top)
        before(x, y) == x.r < y.r \/ (x.r = y.r /\ (x.s = y.s \/ LexLess(x.s, y.s)))
    IN  TLCEval([k \in 1 .. (top + 1) |-> SetToSortSeq(L[k], before)])

\* boundary columns of level k + 1 in level k (levels of records with field s)
BoundaryCols(lower, upper, p) ==
    LET idx == TLCEval([x \in {lower[i].s : i \in 1 .. Len(lower)} |->
                   CHOOSE i \in 1 .. Len(lower) : lower[i].s = x])
        n == Len(lower)
        col(s) == LET f == TLCEval([m \in 1 .. Len(s) |-> idx[Face(s, m)]])
                  IN  [i \in 1 .. n |->
                        IF \E m \in 1 .. Len(s) : f[m] = i
                        THEN (IF (CHOOSE m \in 1 .. Len(s) : f[m] = i) % 2 = 1 THEN 1 ELSE p - 1)
                        ELSE 0]
    IN  TLCEval([j \in 1 .. Len(upper) |-> col(upper[j].s)])

\* ---- barcodes of the whole Rips filtration, degrees 0 .. top - 1 --------------
\* radii < maxr; classes alive at the end die at maxr
DirectBars(w, P, maxr, top, p) ==
    LET L  == TLCEval(RipsLevels(w, P, maxr - 1, top))
        Rd == TLCEval([k \in 1 .. top |->
                  Reduction(Len(L[k]), BoundaryCols(L[k], L[k + 1], p), p)])
        deg(d) == \* sequence of bars of degree d (0-based), with trivial bars dropped
            LET lev == L[d + 1]
                pos == TLCEval([i \in 1 .. Len(lev) |-> d = 0 \/ Rd[d].piv[i] = 0])
                die(i) == IF Rd[d + 1].T[i].at = 0 THEN maxr
                          ELSE L[d + 2][Rd[d + 1].T[i].at].r
                good == SelectSeq([i \in 1 .. Len(lev) |-> i],
                            LAMBDA i : pos[i] /\ lev[i].r < die(i))
            IN  [k \in 1 .. Len(good) |-> <<lev[good[k]].r, die(good[k])>>]
    IN  [d \in 1 .. top |-> deg(d - 1)]

\* ---- multisets of bars --------------------------------------------------------
CountBars(bs, b) == Cardinality({i \in 1 .. Len(bs) : bs[i] = b})
SameBars(x, y) ==
    /\ Len(x) = Len(y)
    /\ \A i \in 1 .. Len(x) : CountBars(x, x[i]) = CountBars(y, x[i])

\* ---- the total complex of a cover at radius t ----------------------------------
\* generators of total degree m: nerve dimension a, cell c, local simplex s
\* ordered by a.  cells[a + 1][c] = [s |-> nerve simplex, pts |-> set of points]
TotGens(w, cells, t, top, m) ==
    LET cols == [a \in 1 .. Len(cells) |->
          IF m - (a - 1) < 0 \/ m - (a - 1) > top THEN <<>>
          ELSE FlattenSeq([c \in 1 .. Len(cells[a]) |->
                 LET L == RipsLevels(w, cells[a][c].pts, t, m - (a - 1))[m - (a - 1) + 1]
                 IN  [i \in 1 .. Len(L) |-> [a |-> a - 1, c |-> c, n |-> cells[a][c].s,
                              s |-> L[i].s, r |-> L[i].r]]])]
    IN  FlattenSeq(cols)

\* total differential: (-1)^(nerve dimension) vertical + Cech
TotCols(lower, upper, p) ==
    LET idx == TLCEval([x \in {<<lower[i].n, lower[i].s>> : i \in 1 .. Len(lower)} |->
                   CHOOSE i \in 1 .. Len(lower) : <<lower[i].n, lower[i].s>> = x])
        n == Len(lower)
        sgn(k) == IF k % 2 = 0 THEN 1 ELSE p - 1
        faces(g) == \* <<index, coefficient>> of the faces of the generator g
            (IF Len(g.s) = 1 THEN {}
             ELSE {<<idx[<<g.n, Face(g.s, k)>>], sgn(k + 1 + g.a)>> : k \in 1 .. Len(g.s)})
            \cup
            (IF Len(g.n) = 1 THEN {}
             ELSE {<<idx[<<Face(g.n, k), g.s>>], sgn(k + 1)>> : k \in 1 .. Len(g.n)})
        col(g) == LET f == TLCEval(faces(g))
                      at == {x[1] : x \in f}
                  IN  [i \in 1 .. n |-> IF i \in at
                                        THEN (CHOOSE x \in f : x[1] = i)[2] ELSE 0]
    IN  TLCEval([j \in 1 .. Len(upper) |-> col(upper[j])])

\* column reduction of the total complex at radius t, degrees 0 .. top + 1
TotReduction(w, cells, t, top, p) ==
    LET G  == TLCEval([m \in 1 .. (top + 2) |-> TotGens(w, cells, t, top, m - 1)])
    IN  [G |-> G,
         Rd |-> TLCEval([m \in 1 .. (top + 1) |->
                  Reduction(Len(G[m]), TotCols(G[m], G[m + 1], p), p)])]

\* counts of every page: PageDims[r][a + 1][b + 1] = dim E^r_(a, b) at radius t
\* for a + b <= top, b < top, r in 1 .. rmax
DimsOf(tr, na, top, rmax) ==
    LET G  == tr.G
        Rd == tr.Rd
        \* page up to which generator i of total degree m is alive (0: none)
        life(m, i) ==
            LET neg == m > 0 /\ Rd[m].piv[i] # 0
            IN  IF neg THEN G[m + 1][i].a - G[m][Rd[m].piv[i]].a
                ELSE IF Rd[m + 1].T[i].at = 0 THEN rmax
                ELSE G[m + 2][Rd[m + 1].T[i].at].a - G[m + 1][i].a
        lives == TLCEval([m \in 1 .. (top + 1) |-> [i \in 1 .. Len(G[m]) |-> life(m - 1, i)]])
    IN  TLCEval([r \in 1 .. rmax |-> [a \in 1 .. na |-> [b \in 1 .. top |->
            IF a + b - 2 > top THEN 0 - 1
            ELSE Cardinality({i \in 1 .. Len(G[a + b - 1]) :
                    G[a + b - 1][i].a = a - 1 /\ lives[a + b - 1][i] >= r})]]])
PageDims(w, cells, t, top, rmax, p) ==
    DimsOf(TotReduction(w, cells, t, top, p), Len(cells), top, rmax)

\* rank of the differential of page r arriving at (a, b): generators killed by
\* one that is r columns further
RanksOf(tr, na, top, rmax) ==
    TLCEval([r \in 1 .. rmax |-> [a \in 1 .. na |-> [b \in 1 .. top |->
        IF a + b - 2 > top THEN 0 - 1
        ELSE Cardinality({i \in 1 .. Len(tr.G[a + b - 1]) :
                /\ tr.G[a + b - 1][i].a = a - 1
                /\ tr.Rd[a + b - 1].T[i].at # 0
                /\ tr.G[a + b][tr.Rd[a + b - 1].T[i].at].a - (a - 1) = r})]]])
=============================================================================
