------------------------------- MODULE TraceMV -------------------------------
(* Verdicts on recorded runs of the Mayer-Vietoris pipeline.                  *)
EXTENDS Cech, TraceRun

\* e.hb[d + 1]: bars in degree d computed through the spectral sequence
JPipe(e) ==
    IF e.exc # "" THEN "pipeline-raised"
    ELSE IF Len(e.hb) # e.top THEN "pipeline-number-of-degrees"
    ELSE LET ref == TLCEval(DirectBars(e.w, 0 .. (e.n - 1), e.maxr, e.top, e.p))
             bad == {d \in 1 .. e.top : ~ SameBars(ref[d], e.hb[d])}
         IN  IF bad = {} THEN "ok"
             ELSE "pipeline-barcode-degree-" \o ToString(Min(bad) - 1)

\* e.pages[r][a + 1][b + 1]: bars of the page r at (a, b); e.dims the dimension
\* table; e.cells the cover; e.ts radii at which pages are compared
JPages(e) ==
    IF e.exc # "" THEN "pages-raised"
    ELSE LET R == Len(e.pages)
             \* no differential starts past the last column: page Rinf is the limit
             Rinf == Max({R, Len(e.cells)})
             cells == TLCEval([a \in 1 .. Len(e.cells) |-> [c \in 1 .. Len(e.cells[a]) |->
                        [s |-> e.cells[a][c].s, pts |-> {e.cells[a][c].pts[i] : i \in 1 .. Len(e.cells[a][c].pts)}]]])
             red == TLCEval([k \in 1 .. Len(e.ts) |-> TotReduction(e.w, cells, e.ts[k], e.top, e.p)])
             ref == TLCEval([k \in 1 .. Len(e.ts) |-> DimsOf(red[k], Len(cells), e.top, Rinf)])
             rks == TLCEval([k \in 1 .. Len(e.ts) |-> RanksOf(red[k], Len(cells), e.top, R - 1)])
             badim == {r \in 1 .. (R - 1) : \E k \in 1 .. Len(e.ts) :
                  \E a \in 1 .. Len(cells) : \E b \in 1 .. e.top :
                     rks[k][r][a][b] >= 0 /\
                     NumAlive(e.im[r][a][b], e.ts[k], e.ts[k]) # rks[k][r][a][b]}
             wrong(k, r) == \E a \in 1 .. Len(cells) : \E b \in 1 .. e.top :
                  ref[k][r][a][b] >= 0 /\
                  NumAlive(e.pages[r][a][b], e.ts[k], e.ts[k]) # ref[k][r][a][b]
             bad == {r \in 1 .. R : \E k \in 1 .. Len(e.ts) : wrong(k, r)}
             moving == \E k \in 1 .. Len(e.ts) : \E a \in 1 .. Len(cells) : \E b \in 1 .. e.top :
                  ref[k][R][a][b] # ref[k][Rinf][a][b]
         IN  CASE \E r \in 1 .. R : \E a \in 1 .. Len(e.cells) : \E b \in 1 .. e.top :
                      e.dims[r][b][a] # Len(e.pages[r][a][b])
                        -> "page-dimension-table-differs-from-bars"
             []   \E r \in 1 .. R : \E a \in 1 .. Len(e.cells) : \E b \in 1 .. e.top :
                      \E i \in 1 .. Len(e.pages[r][a][b]) :
                        LET x == e.pages[r][a][b][i] IN x[1] >= x[2] \/ x[2] > e.maxr
                        -> "page-improper-bar"
             []   bad # {} -> "page-" \o ToString(Min(bad)) \o "-wrong-dimension"
             []   moving -> "last-page-is-not-the-limit"
             []   badim # {} -> "page-" \o ToString(Min(badim)) \o "-wrong-image"
             []   OTHER -> "ok"

\* ---- representatives ------------------------------------------------------------
(* A class at position (e.cls[i].a, m - a) on page e.cls[i].r has a chain of     *)
(* total degree m = e.m with components in the columns a, a - 1, ... given       *)
(* sparsely by <<column, cell, simplex, coefficient>>.  The sign convention of   *)
(* the double complex is free: any two conventions differ by a choice of a sign  *)
(* g[c] for every column c of the diagonal.                                      *)
GensBy(w, cells, t, top, m) ==
    IF m < 0 THEN <<>>
    ELSE SetToSortSeq({x : x \in Range(TotGens(w, cells, t, top, m))},
            LAMBDA x, y : x.r < y.r \/ (x.r = y.r /\ (x.a < y.a \/ (x.a = y.a /\
                (x.c < y.c \/ (x.c = y.c /\ (x.s = y.s \/ LexLess(x.s, y.s))))))))

RedBy(T, k, v0, p) ==
    LET RECURSIVE go(_)
        go(v) == LET q == Pivot(v, p)
                 IN  IF q = 0 \/ T[q].col = <<>> \/ T[q].at > k THEN v
                     ELSE go(TLCEval(VecAxpy(v, (p - MulMod(v[q], T[q].inv, p)) % p, T[q].col, p)))
    IN  go(v0)

JReps(e) ==
    IF e.exc # "" THEN "representatives-raised"
    ELSE
    LET cells == TLCEval([a \in 1 .. Len(e.cells) |-> [c \in 1 .. Len(e.cells[a]) |->
                   [s |-> e.cells[a][c].s, pts |-> {e.cells[a][c].pts[i] : i \in 1 .. Len(e.cells[a][c].pts)}]]])
        p == e.p
        Glo == TLCEval(GensBy(e.w, cells, e.maxr - 1, e.top, e.m - 1))
        G   == TLCEval(GensBy(e.w, cells, e.maxr - 1, e.top, e.m))
        Gup == TLCEval(GensBy(e.w, cells, e.maxr - 1, e.top, e.m + 1))
        Dm  == TLCEval(TotCols(Glo, G, p))
        Rd  == TLCEval(Reduction(Len(G), TotCols(G, Gup, p), p))
        upto(t) == Cardinality({j \in 1 .. Len(Gup) : Gup[j].r <= t})
        idx == TLCEval([x \in {<<G[i].a, G[i].c, G[i].s>> : i \in 1 .. Len(G)} |->
                   CHOOSE i \in 1 .. Len(G) : <<G[i].a, G[i].c, G[i].s>> = x])
        known == DOMAIN idx
        key(x) == <<x[1], x[2], x[3]>>
        bad == \E i \in 1 .. Len(e.cls) : \E k \in 1 .. Len(e.cls[i].v) :
                   key(e.cls[i].v[k]) \notin known
        \* component of the class i in column c, as a vector
        comp(i, c) == LET here == {k \in 1 .. Len(e.cls[i].v) : e.cls[i].v[k][1] = c}
                          f == TLCEval([y \in {idx[key(e.cls[i].v[k])] : k \in here} |->
                                 (CHOOSE k \in here : idx[key(e.cls[i].v[k])] = y)])
                      IN  TLCEval([y \in 1 .. Len(G) |-> IF y \in DOMAIN f
                             THEN e.cls[i].v[f[y]][4] % p ELSE 0])
        cs == 0 .. Min({e.m, Len(cells) - 1})
        V  == TLCEval([i \in 1 .. Len(e.cls) |-> [c \in cs |-> comp(i, c)]])
        apply(v) == FoldLeftDomain(LAMBDA acc, j : IF v[j] = 0 THEN acc
                        ELSE TLCEval(VecAxpy(acc, v[j], Dm[j], p)), ZeroVec(Len(Glo)), v)
        DV == TLCEval([i \in 1 .. Len(e.cls) |-> [c \in cs |-> apply(V[i][c])]])
        sum(U, i, g, n) == FoldSet(LAMBDA c, acc : TLCEval(VecAxpy(acc, g[c], U[i][c], p)),
                                   TLCEval(ZeroVec(n)), cs)
        \* the boundary vanishes but for the columns <= a - r
        closed(i, g) == LET d == sum(DV, i, g, Len(Glo)) IN
              \A y \in 1 .. Len(Glo) : d[y] # 0 => Glo[y].a <= e.cls[i].a - e.cls[i].r
        \* only the columns that occur together in a class matter
        used == {c \in cs : \E i \in 1 .. Len(e.cls) : e.cls[i].a >= c /\ e.cls[i].a > 0}
        Signs == {g \in [cs -> {1, p - 1}] : g[0] = 1 /\ \A c \in cs \ used : g[c] = 1}
        good == TLCEval({g \in Signs : \A i \in 1 .. Len(e.cls) : closed(i, g)})
        last == {i \in 1 .. Len(e.cls) : e.cls[i].last = 1}
        \* alive classes of the last page are independent modulo boundaries at t
        indep(S, t) == LET k == upto(t)
                           alive == SetToSortSeq({i \in last : e.cls[i].b <= t /\ t < e.cls[i].d}, <)
                           res == FoldLeft(LAMBDA acc, i :
                               IF ~ acc.ok THEN acc
                               ELSE LET v == TLCEval(RedBy(acc.T, k, S[i], p))
                                        q == Pivot(v, p)
                                    IN  IF q = 0 THEN [acc EXCEPT !.ok = FALSE]
                                        ELSE [acc EXCEPT !.T[q] =
                                                [col |-> v, inv |-> Inv(v[q], p), at |-> 0]],
                               [ok |-> TRUE, T |-> Rd.T], alive)
                       IN  res.ok
        \* a class that dies becomes the combination given by the extension
        extends(S, i) == e.cls[i].d >= e.maxr \/
              LET v == TLCEval(FoldLeftDomain(LAMBDA acc, k :
                           TLCEval(VecAxpy(acc, (0 - e.cls[i].ext[k][2]) % p, S[e.cls[i].ext[k][1]], p)),
                           S[i], e.cls[i].ext))
              IN  Pivot(RedBy(Rd.T, upto(e.cls[i].d), v, p), p) = 0
        total(g) == TLCEval([i \in 1 .. Len(e.cls) |-> sum(V, i, g, Len(G))])
        ts == {e.cls[i].b : i \in last} \cup {e.cls[i].d : i \in last} \cup {e.maxr - 1}
        okBase(g) == LET S == TLCEval(total(g)) IN \A t \in ts : t < e.maxr => indep(S, t)
        okExt(g) == LET S == TLCEval(total(g)) IN \A i \in last : extends(S, i)
    IN  CASE bad -> "representative-outside-its-region"
        []   \E i \in 1 .. Len(e.cls) : \E k \in 1 .. Len(e.cls[i].v) :
                 e.cls[i].v[k][4] % p # 0 /\ G[idx[key(e.cls[i].v[k])]].r > e.cls[i].b
                     -> "representative-uses-unborn-simplex"
        []   \E i \in 1 .. Len(e.cls) : \E k \in 1 .. Len(e.cls[i].v) :
                 e.cls[i].v[k][1] > e.cls[i].a -> "representative-in-wrong-column"
        []   good = {} -> "representative-not-a-cycle"
        []   \A g \in good : ~ okBase(g)
                     -> "representatives-not-a-basis"
        []   \A g \in good : ~ okExt(g) -> "extension-wrong"
        []   OTHER -> "ok"

\* ---- local data ------------------------------------------------------------------
\* the intersection over the nerve simplex e.s: its points e.pts, the rows of
\* the stored cloud and of the whole one (named alike when equal), its bars in
\* the table of the first page (e.fpb) and by themselves (e.hb)
JPlace(e) ==
    LET own == {v \in 0 .. (e.n - 1) : \A k \in 1 .. Len(e.s) :
                   \E i \in 1 .. Len(e.own[k]) : e.own[k][i] = v}
    IN  CASE e.exc # "" -> "local-data-raised"
        []   {e.pts[i] : i \in 1 .. Len(e.pts)} # own \/ ~ NoRepeats(e.pts)
                 -> "local-points-not-the-intersection"
        []   e.pc # e.pid -> "local-cloud-differs-from-points"
        []   e.fpb # e.hb -> "first-page-table-differs-from-local-bars"
        []   OTHER -> "ok"

\* ---- Cech differential and lifts ----------------------------------------------------
(* e.z[k]: chains at (e.a, e.b) with the radius e.R[k] at which they are given.     *)
(* cech:  e.y[k] is the Cech differential, at (e.a - 1, e.b).                        *)
(* lift:  z = classes + boundary;  clift: Cech differential of z + boundary = classes *)
(* e.cls: the local classes of the target <<birth, chain>>, e.beta[k] coefficients,  *)
(* e.l[k]: the lift, in the target column one row up.  The sign of the Cech          *)
(* differential and of the boundary of a degree is a convention (s and u).           *)
JCech(e) ==
    IF e.exc # "" THEN "cech-raised"
    ELSE LET up == e.up
             lo == e.lo
             K == 1 .. Len(e.z)
             good == {s \in {1, 0 - 1} : \A k \in K :
                 Terms(e.y[k], e.p) = Terms(Scale(CechD(e.z[k], up, lo), s, e.p), e.p)}
         IN  IF Len(e.y) # Len(e.z) THEN "cech-number-of-chains"
             ELSE IF good = {} THEN "cech-not-the-restriction" ELSE "ok"

JLift(e) ==
    IF e.exc # "" THEN e.op \o "-raised"
    ELSE LET K == 1 .. Len(e.z)
             p == e.p
             sgn == {1, 0 - 1}
             comb(k, q) == FlattenSeq([j \in 1 .. Len(e.cls) |->
                 IF e.beta[k][j] % p = 0 THEN <<>>
                 ELSE Scale(e.cls[j][2], MulMod(q % p, e.beta[k][j] % p, p), p)])
             side(k, s, u) == IF e.op = "lift"
                 THEN Terms(e.z[k] \o Scale(VertD(e.l[k]), u, p) \o comb(k, 0 - 1), p)
                 ELSE Terms(Scale(CechD(e.z[k], e.up, e.lo), s, p)
                            \o Scale(VertD(e.l[k]), u, p) \o comb(k, 0 - 1), p)
         IN  CASE Len(e.l) # Len(e.z) \/ Len(e.beta) # Len(e.z)
                     -> "lift-number-of-chains"
             []   \E k \in K : Len(e.beta[k]) # Len(e.cls) -> "lift-number-of-classes"
             []   \E k \in K : \E j \in 1 .. Len(e.cls) :
                     e.beta[k][j] % p # 0 /\ e.cls[j][1] > e.R[k]
                     -> "lift-uses-unborn-class"
             []   \E k \in K : \E i \in 1 .. Len(e.l[k]) :
                     e.l[k][i][3] % p # 0 /\ DiamOf(e.w, e.l[k][i][2]) > e.R[k]
                     -> "lift-uses-unborn-simplex"
             []   ~ \E s \in sgn : \E u \in sgn : \A k \in K : side(k, s, u) = {}
                     -> e.op \o "-equation-fails"
             []   OTHER -> "ok"

JudgeMV(e) ==
    IF e.exc \in {"Malformed", "Timeout"} THEN "call-" \o e.exc
    ELSE CASE e.op = "pipe"  -> JPipe(e)
         []   e.op = "pages" -> JPages(e)
         []   e.op = "reps"  -> JReps(e)
         []   e.op = "place" -> JPlace(e)
         []   e.op = "cech"  -> JCech(e)
         []   e.op \in {"lift", "clift"} -> JLift(e)
         []   OTHER -> "unknown-op"
=============================================================================
