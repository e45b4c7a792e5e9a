------------------------------ MODULE GaussSpec ------------------------------
(* Call-level specification of the linear algebra layer: what each call may *)
(* return for given arguments.  Matrices are sequences of rows, m and n are *)
(* carried explicitly because a 0 x n matrix has no rows to count.          *)
EXTENDS Fp

\* ---- column reduction ------------------------------------------------------
\* R and T given by columns
DistinctPivots(Rcols, p) ==
    \A j, k \in 1 .. Len(Rcols) :
        j < k => LET pj == Pivot(Rcols[j], p) IN
                 pj = 0 \/ pj # Pivot(Rcols[k], p)

UnitUpper(Tcols, p) ==
    \A j \in 1 .. Len(Tcols) :
        /\ Len(Tcols[j]) = Len(Tcols)
        /\ Tcols[j][j] % p = 1
        /\ \A i \in (j + 1) .. Len(Tcols) : Tcols[j][i] % p = 0

ProductHolds(A, Tcols, Rcols, p) ==
    \A j \in 1 .. Len(Tcols) : VecEqMod(MatVec(A, Tcols[j], p), Rcols[j], p)

GaussVerdict(A, m, n, R, T, p) ==
    IF ~ (IsMatrix(R, m, n) /\ IsMatrix(T, n, n)) THEN "gauss-shape"
    ELSE LET Rc == [j \in 1 .. n |-> ColOf(R, j)]
             Tc == [j \in 1 .. n |-> ColOf(T, j)]
         IN  CASE ~ Reduced(R, p) \/ ~ Reduced(T, p) -> "gauss-entries-mod-p"
             []   ~ UnitUpper(Tc, p)                -> "gauss-T-not-left-to-right"
             []   ~ ProductHolds(A, Tc, Rc, p)      -> "gauss-AT-differs-from-R"
             []   ~ DistinctPivots(Rc, p)           -> "gauss-pivots-repeated"
             []   OTHER                             -> "ok"

\* ---- solvers ---------------------------------------------------------------
\* A x = b; exc = "" when a vector was returned
SolveVerdict(A, m, n, b, x, exc, p) ==
    LET E == Echelon([j \in 1 .. n |-> ColOf(A, j)], p)
    IN  IF InSpan(E, b, p)
        THEN CASE exc # ""          -> "solve-rejects-solvable"
             []   Len(x) # n        -> "solve-shape"
             []   \E i \in 1 .. n : x[i] \notin 0 .. (p - 1) -> "solve-entries-mod-p"
             []   ~ VecEqMod(MatVec(A, x, p), VecMod(b, p), p) -> "solve-wrong-solution"
             []   OTHER             -> "ok"
        ELSE IF exc = "ValueError" THEN "ok"
             ELSE IF exc = "" THEN "solve-accepts-unsolvable"
             ELSE "solve-wrong-exception"

\* A X = B^T: the rows of B are the right-hand sides
SolveMatVerdict(A, m, n, B, X, exc, p) ==
    LET E  == Echelon([j \in 1 .. n |-> ColOf(A, j)], p)
        k  == Len(B)
        ok == \A r \in 1 .. k : InSpan(E, B[r], p)
    IN  IF ok
        THEN CASE exc # ""             -> "solve-rejects-solvable"
             []   ~ IsMatrix(X, n, k)  -> "solve-shape"
             []   ~ Reduced(X, p)      -> "solve-entries-mod-p"
             []   \E r \in 1 .. k : ~ VecEqMod(MatVec(A, ColOf(X, r), p),
                                               VecMod(B[r], p), p)
                                       -> "solve-wrong-solution"
             []   OTHER                -> "ok"
        ELSE IF exc = "ValueError" THEN "ok"
             ELSE IF exc = "" THEN "solve-accepts-unsolvable"
             ELSE "solve-wrong-exception"

\* ---- lifts with birth radii ------------------------------------------------
\* Columns s+1..n of A are to be cancelled using columns 1..s whose radius is
\* not larger.  Arguments by columns.
Allowed(rad, s, j) == {k \in 1 .. s : rad[k] <= rad[j]}

RadVerdict(A, m, n, rad, s, R, T, exc, p) ==
    LET Ac == [j \in 1 .. n |-> ColOf(A, j)]
        Sp(j) == Echelon([i \in 1 .. Cardinality(Allowed(rad, s, j)) |->
                    Ac[SetToSortSeq(Allowed(rad, s, j), <)[i]]], p)
        reach == \A j \in (s + 1) .. n : InSpan(Sp(j), Ac[j], p)
        uniq  == DistinctPivots(SubSeq(Ac, 1, s), p)
    IN  IF exc # ""
        THEN IF reach /\ uniq THEN "lift-rejects-reducible"
             ELSE IF exc = "RuntimeError" THEN "ok" ELSE "lift-wrong-exception"
        ELSE IF ~ reach THEN "lift-accepts-irreducible"
        ELSE IF ~ (IsMatrix(R, m, n) /\ IsMatrix(T, n, n)) THEN "lift-shape"
        ELSE LET Rc == [j \in 1 .. n |-> ColOf(R, j)]
                 Tc == [j \in 1 .. n |-> ColOf(T, j)]
             IN CASE \E j \in (s + 1) .. n : ~ IsZero(Rc[j], p)
                        -> "lift-not-reduced-to-zero"
                []   \E j \in 1 .. s : ~ VecEqMod(Rc[j], Ac[j], p)
                                       \/ ~ VecEqMod(Tc[j], UnitVec(n, j), p)
                        -> "lift-touches-given-columns"
                []   \E j \in (s + 1) .. n :
                        \E k \in 1 .. n :
                           Tc[j][k] % p # (IF k = j THEN 1 ELSE 0)
                           /\ k \notin Allowed(rad, s, j)
                        -> "lift-uses-later-radius"
                []   \E j \in (s + 1) .. n : ~ IsZero(MatVec(A, Tc[j], p), p)
                        -> "lift-wrong-coefficients"
                []   OTHER -> "ok"

\* rows and columns carry bars <<birth, death>>
AliveAt(bar, r) == bar[1] <= r /\ r < bar[2]

BarVerdict(A, m, n, rowbar, colbar, s, C, exc, p) ==
    LET rows(j) == SetToSortSeq({i \in 1 .. m : AliveAt(rowbar[i], colbar[j][1])}, <)
        cols(j) == SetToSortSeq({k \in 1 .. s : AliveAt(colbar[k], colbar[j][1])}, <)
        rcol(j, k) == [i \in 1 .. Len(rows(j)) |-> A[rows(j)[i]][k]]
        reach == \A j \in (s + 1) .. n :
                    InSpan(Echelon([i \in 1 .. Len(cols(j)) |->
                                      rcol(j, cols(j)[i])], p), rcol(j, j), p)
    IN  IF exc # ""
        THEN IF reach THEN "barlift-rejects-reducible"
             ELSE IF exc = "RuntimeError" THEN "ok" ELSE "barlift-wrong-exception"
        ELSE IF ~ reach THEN "barlift-accepts-irreducible"
        ELSE IF ~ IsMatrix(C, s, n - s) THEN "barlift-shape"
        ELSE CASE \E j \in (s + 1) .. n : \E k \in 1 .. s :
                     C[k][j - s] % p # 0 /\ ~ AliveAt(colbar[k], colbar[j][1])
                       -> "barlift-uses-inactive-column"
             []   \E j \in (s + 1) .. n : \E i \in 1 .. m :
                     /\ AliveAt(rowbar[i], colbar[j][1])
                     /\ (Dot(SubSeq(A[i], 1, s), ColOf(C, j - s), p)
                            - A[i][j]) % p # 0
                       -> "barlift-wrong-coefficients"
             []   ~ Reduced(C, p) -> "barlift-entries-mod-p"
             []   OTHER -> "ok"
=============================================================================
