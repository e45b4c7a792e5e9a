------------------------------ MODULE TraceCover ------------------------------
(* Verdicts on recorded covers.  Levels of the nerve are e.nerve[k], with    *)
(* k = 1 for single regions; e.pts[k][c] are the points of cell c (0-based   *)
(* indices into e.X) and e.xyz[k][c] their coordinates as reported.  When    *)
(* e.exact is false the code works with rounded numbers: a point exactly on  *)
(* a face may be on either side, and one more row of boxes is tolerated      *)
(* where the quotient is an integer.                                         *)
EXTENDS CoverSpec, TraceRun

SeqSet(s) == {s[k] : k \in 1 .. Len(s)}

JNext(e) ==
    IF e.exc # "" THEN "next-hypercube-raised"
    ELSE IF e.out # NextPos(e.pos, e.div) THEN "next-hypercube-wrong" ELSE "ok"

JCorners(e) ==
    IF e.exc # "" THEN "corners-raised"
    ELSE IF e.lo # [k \in 1 .. DimOf(e.X) |-> MinC(e.X, k)]
         \/ e.hi # [k \in 1 .. DimOf(e.X) |-> MaxC(e.X, k)]
    THEN "corners-wrong" ELSE "ok"

JInter(e) ==
    IF e.exc # "" THEN "intersection-raised"
    ELSE LET want == {x \in SeqSet(e.regions[e.spx[1] + 1]) :
                        \A k \in 1 .. Len(e.spx) : x \in SeqSet(e.regions[e.spx[k] + 1])}
         IN  IF SeqSet(e.out) # want THEN "intersection-wrong"
             ELSE IF Len(e.out) # Cardinality(want) THEN "intersection-repeats"
             ELSE "ok"

\* levels of a nerve against the touching sets of the grid
NerveVerdict(nerve, div) ==
    LET want == NerveLevels(div)
        top  == Len(want)
        lev(k) == IF k > Len(nerve) THEN {} ELSE {SeqSet(nerve[k][c]) : c \in 1 .. Len(nerve[k])}
        dup(k) == k <= Len(nerve) /\ Len(nerve[k]) # Cardinality(lev(k))
        bad == {k \in 1 .. Max({top, Len(nerve)}) :
                  lev(k) # (IF k <= top THEN want[k] ELSE {}) \/ dup(k)}
    IN  IF bad = {} THEN "ok"
        ELSE IF dup(Min(bad)) THEN "nerve-simplex-repeated"
        ELSE IF Min(bad) = 1 THEN "nerve-number-of-regions"
        ELSE "nerve-not-the-touching-boxes"

JNerve(e) ==
    IF e.exc # "" THEN "nerve-raised" ELSE NerveVerdict(e.nerve, e.div)

RegionVerdict(e, div) ==
    LET n  == Boxes(div)
        N  == Len(e.X)
        R  == TLCEval([c \in 1 .. n |-> SeqSet(e.pts[1][c])])
        bad(c) == \E j \in 1 .. N :
            LET s == Where(e.X[j], Decode(c - 1, div), e.X, e.m, e.w)
            IN  \/ s > 0 /\ ~ (j - 1) \in R[c]
                \/ s < 0 /\ (j - 1) \in R[c]
                \/ s = 0 /\ e.exact /\ ~ (j - 1) \in R[c]
        one(a) == \E c \in 1 .. n : (a - 1) \in R[c]
        two(a, b) == \E c \in 1 .. n : {a - 1, b - 1} \subseteq R[c]
        three(a, b, g) == \E c \in 1 .. n : {a - 1, b - 1, g - 1} \subseteq R[c]
    IN  CASE \E c \in 1 .. n : bad(c) -> "region-not-the-points-of-its-box"
        []   \E a \in 1 .. N : ~ one(a) -> "point-not-covered"
        []   \E a, b \in 1 .. N : a < b /\ SupDist(e.X[a], e.X[b]) < e.w /\ ~ two(a, b)
                 -> "close-points-in-no-common-region"
        []   N <= 9 /\ \E a, b, c \in 1 .. N : a < b /\ b < c
                 /\ SupDist(e.X[a], e.X[b]) < e.w /\ SupDist(e.X[a], e.X[c]) < e.w
                 /\ SupDist(e.X[b], e.X[c]) < e.w /\ ~ three(a, b, c)
                 -> "close-points-in-no-common-region"
        []   OTHER -> "ok"

CellVerdict(e) ==
    LET badcell(k, c) ==
            LET s == e.nerve[k][c] P == e.pts[k][c] IN
            CASE SeqSet(P) # {x \in SeqSet(e.pts[1][s[1] + 1]) :
                                \A i \in 1 .. Len(s) : x \in SeqSet(e.pts[1][s[i] + 1])}
                     -> "cell-not-the-intersection"
            []   Len(P) # Cardinality(SeqSet(P)) -> "cell-point-repeated"
            []   ~ (Len(e.xyz[k][c]) = Len(P)
                    /\ \A i \in 1 .. Len(P) : e.xyz[k][c][i] = e.X[P[i] + 1])
                     -> "cell-coordinates-wrong"
            []   OTHER -> "ok"
        bads == {badcell(k, c) : <<k, c>> \in
                   UNION {{<<k, c>> : c \in 1 .. Len(e.nerve[k])} : k \in 1 .. Len(e.nerve)}}
                \ {"ok"}
    IN  CASE \E k \in 1 .. Len(e.nerve) : Len(e.nerve[k]) > 0 /\
                 (k > Len(e.pts) \/ k > Len(e.xyz)) -> "cells-missing"
        []   \E k \in 1 .. Len(e.nerve) : Len(e.nerve[k]) > 0 /\
                 (Len(e.pts[k]) # Len(e.nerve[k]) \/ Len(e.xyz[k]) # Len(e.nerve[k]))
                     -> "cells-missing"
        []   bads # {} -> CHOOSE v \in bads : TRUE
        []   OTHER -> "ok"

\* the possible grids
Extra(e, k) ==
    LET ext == MaxC(e.X, k) - MinC(e.X, k) L == Longest(e.X)
    IN  IF e.exact \/ ext = 0 \/ (ext * e.m) % L # 0 THEN {0} ELSE {0, 1}
RECURSIVE Grids(_, _)
Grids(e, k) ==
    IF k = 0 THEN {<<>>}
    ELSE {Append(g, DivOf(e.X, e.m)[k] + x) : g \in Grids(e, k - 1), x \in Extra(e, k)}

JCover(e) ==
    IF e.exc # "" THEN "cover-raised"
    ELSE LET try(g) == IF Len(e.nerve) = 0 \/ Len(e.nerve[1]) # Boxes(g)
                       THEN "nerve-number-of-regions"
                       ELSE LET v == NerveVerdict(e.nerve, g) IN
                            IF v # "ok" THEN v
                            ELSE LET c == CellVerdict(e) IN
                                 IF c # "ok" THEN c ELSE RegionVerdict(e, g)
             gs == {try(g) : g \in Grids(e, DimOf(e.X))}
         IN  IF "ok" \in gs THEN "ok"
             ELSE LET h == gs \ {"nerve-number-of-regions"}
                  IN  IF h = {} THEN "nerve-number-of-regions" ELSE CHOOSE v \in h : TRUE

JudgeCover(e) ==
    IF e.exc \in {"Malformed", "Timeout"} THEN "call-" \o e.exc
    ELSE CASE e.op = "next" -> JNext(e)
         []   e.op = "corners" -> JCorners(e)
         []   e.op = "inter" -> JInter(e)
         []   e.op = "nerve" -> JNerve(e)
         []   e.op = "cover" -> JCover(e)
         []   OTHER -> "unknown-op"
=============================================================================
