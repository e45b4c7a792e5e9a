------------------------------ MODULE TraceSimp ------------------------------
(* Verdicts on recorded calls of the simplicial layer: Vietoris-Rips and     *)
(* flag complexes, boundary operators, classical persistent homology.        *)
(* Radii are logged as ranks (0 for the radius 0); matrices by columns.       *)
EXTENDS Simplicial, TraceRun

ColsOK(M, n, m) == Len(M) = n /\ \A k \in 1 .. n : Len(M[k]) = m
FirstBad(S, v(_)) ==
    LET bad == {k \in S : v(k) # "ok"} IN IF bad = {} THEN "ok" ELSE v(Min(bad))

\* e.C[k], e.R[k]: simplices with k + 1 vertices and their radii
JRips(e) ==
    IF e.exc # "" THEN "rips-raised"
    ELSE LET top == IF e.maxdim < 1 THEN 1 ELSE e.maxdim IN
         CASE Len(e.C) # top \/ Len(e.R) # top -> "rips-wrong-number-of-dimensions"
         []   e.c0 # e.n -> "rips-number-of-vertices"
         []   e.r0 # [i \in 1 .. e.n |-> 0] -> "rips-vertex-radii"
         []   OTHER -> FirstBad(1 .. top,
                LAMBDA k : VRLevel(e.n, e.w, e.maxr, k + 1, e.C[k], e.R[k]))

\* e.edges: edges of the graph in any orientation
JFlag(e) ==
    IF e.maxdim < 0
    THEN IF e.exc = "ValueError" THEN "ok" ELSE "flag-negative-dimension-accepted"
    ELSE IF e.exc # "" THEN "flag-raised"
    ELSE LET G == {{e.edges[i][1], e.edges[i][2]} : i \in 1 .. Len(e.edges)}
             E(a, b) == {a, b} \in G
             lvl(k) == LET S == {Verts(e.C[k][i]) : i \in 1 .. Len(e.C[k])} IN
                 CASE \E i \in 1 .. Len(e.C[k]) : Len(e.C[k][i]) # k + 1
                          -> "complex-wrong-dimension"
                 []   \* isolated vertices are in no larger clique
                      S # CliquesOn(UNION G, k + 1, E) -> "complex-not-the-cliques"
                 []   Cardinality(S) # Len(e.C[k]) -> "complex-simplex-repeated"
                 []   e.inc /\ \E i \in 1 .. Len(e.C[k]) : ~ Increasing(e.C[k][i])
                          -> "complex-simplex-not-increasing"
                 []   OTHER -> "ok"
         IN  CASE Len(e.C) # e.maxdim -> "flag-wrong-number-of-dimensions"
             []   e.c0 # e.n -> "flag-number-of-vertices"
             []   OTHER -> FirstBad(1 .. e.maxdim, lvl)

\* a simplicial complex e.C (levels as above) and its operators e.D
JBnd(e) ==
    IF e.exc # "" THEN "differentials-raised"
    ELSE LET pts == [i \in 1 .. e.n |-> <<i - 1>>]
             lvl(k) == IF k = 0 THEN pts ELSE e.C[k]
             top == Len(e.C)
             op(k) == IF ~ ColsOK(e.D[k], Len(lvl(k)), Len(lvl(k - 1)))
                      THEN "differential-shape"
                      ELSE IF ~ IsBoundary(lvl(k - 1), lvl(k), e.D[k], e.p)
                      THEN "differential-not-the-boundary"
                      ELSE IF \E j \in 1 .. Len(e.D[k]) : \E i \in 1 .. Len(e.D[k][j]) :
                                ~ e.D[k][j][i] \in 0 .. (e.p - 1)
                      THEN "differential-not-reduced"
                      ELSE "ok"
             sq(k) == \* the operators k and k - 1 compose to zero
                 IF \E j \in 1 .. Len(e.D[k]) :
                      ~ IsZero(ColComb(e.D[k - 1], e.D[k][j], Len(lvl(k - 2)), e.p), e.p)
                 THEN "differential-does-not-square-to-zero" ELSE "ok"
             v == FirstBad(1 .. top, op)
         IN  CASE Len(e.D) # top -> "differential-wrong-number"
             []   e.d0 # e.n -> "differential-number-of-vertices"
             []   v # "ok" -> v
             []   OTHER -> FirstBad(2 .. top, sq)

\* persistent homology of the filtered complex with radii e.R[d] (d = 1 is
\* degree 0) and operators e.D[d] (from degree d to degree d - 1)
Coarse(e, x) == e.cr[x + 1]
StdOrder(e, bs) ==
    \A k \in 1 .. (Len(bs) - 1) :
        LET a == <<Coarse(e, bs[k][1]), Coarse(e, bs[k][2])>>
            b == <<Coarse(e, bs[k + 1][1]), Coarse(e, bs[k + 1][2])>>
        IN  a[1] < b[1] \/ (a[1] = b[1] /\ a[2] >= b[2])

JHom(e) ==
    IF e.exc # "" THEN "persistent-homology-raised"
    ELSE LET L == Len(e.R)
             dc(d) == IF d = 1 THEN [j \in 1 .. Len(e.R[1]) |-> <<>>] ELSE e.D[d - 1]
             uc(d) == IF d = L THEN <<>> ELSE e.D[d]
             ru(d) == IF d = L THEN <<>> ELSE e.R[d + 1]
             hv(d) == IF ~ ColsOK(e.hc[d], Len(e.hb[d]), Len(e.R[d]))
                      THEN "homology-shape"
                      ELSE IF ~ StdOrder(e, e.hb[d]) THEN "homology-not-in-standard-order"
                      ELSE PHVerdict(e.R[d], ru(d), dc(d), uc(d), e.maxr,
                                     e.hb[d], e.hc[d], e.p)
             iv(d) == IF d = L THEN (IF Len(e.ib[d]) = 0 THEN "ok"
                                     ELSE "boundary-in-top-degree")
                      ELSE IF ~ (ColsOK(e.ic[d], Len(e.ib[d]), Len(e.R[d]))
                             /\ ColsOK(e.pre[d], Len(e.ib[d]), Len(e.R[d + 1])))
                      THEN "boundary-shape"
                      ELSE IF ~ StdOrder(e, e.ib[d]) THEN "boundary-not-in-standard-order"
                      ELSE BndVerdict(e.R[d], e.R[d + 1], e.D[d], e.maxr,
                                      e.ib[d], e.ic[d], e.pre[d], e.p)
             v == IF Len(e.hb) # L \/ Len(e.ib) # L THEN "homology-number-of-degrees"
                  ELSE FirstBad(1 .. L, hv)
         IN  IF v # "ok" THEN v ELSE FirstBad(1 .. L, iv)

JudgeSimp(e) ==
    IF e.exc \in {"Malformed", "Timeout"} THEN "call-" \o e.exc
    ELSE CASE e.op = "rips" -> JRips(e)
         []   e.op = "flag" -> JFlag(e)
         []   e.op = "bnd"  -> JBnd(e)
         []   e.op = "hom"  -> JHom(e)
         []   OTHER -> "unknown-op"
=============================================================================
