---------------------------- MODULE TracePersist ----------------------------
(* Verdicts on recorded calls of the persistence algebra layer.              *)
(* All coordinates are logged by columns; radii are ranks of real radii.     *)
EXTENDS Persist, TraceRun

ColsOK(C, n, m) == Len(C) = n /\ \A k \in 1 .. n : Len(C[k]) = m

JIK(e) ==
    IF e.exc # "" THEN "image-kernel-raised"
    ELSE IF ~ (ColsOK(e.ic, Len(e.ib), Len(e.B)) /\ ColsOK(e.pre, Len(e.ib), Len(e.A))
               /\ ColsOK(e.kc, Len(e.kb), Len(e.A))) THEN "image-kernel-shape"
    ELSE IKVerdict(e.A, e.B, e.F, e.ib, e.ic, e.kb, e.kc, e.pre, e.p)

JQuot(e) ==
    IF e.exc # "" THEN "quotient-raised"
    ELSE IF ~ ColsOK(e.qc, Len(e.qb), Len(e.B)) THEN "quotient-shape"
    ELSE QuotVerdict(e.B, e.nb, e.nc, e.mb, e.mc, e.qb, e.qc, e.p)

\* whole chain complex: e.B[1..L] barcodes, e.D[1..L] differentials by columns
\* (D[d] : B[d] -> B[d-1]); e.hb, e.hc results; e.ib, e.ic, e.pre images
JChain(e) ==
    IF e.exc # "" THEN "module-homology-raised"
    ELSE LET L == Len(e.B)
             low(d) == IF d = 1 THEN <<>> ELSE e.B[d - 1]
             upp(d) == IF d = L THEN <<>> ELSE e.B[d + 1]
             dc(d)  == IF d = 1 THEN [j \in 1 .. Len(e.B[1]) |-> <<>>] ELSE e.D[d]
             uc(d)  == IF d = L THEN <<>> ELSE e.D[d + 1]
             hv(d)  == IF ~ ColsOK(e.hc[d], Len(e.hb[d]), Len(e.B[d]))
                       THEN "homology-shape"
                       ELSE HomVerdict(low(d), e.B[d], upp(d), dc(d), uc(d),
                                       e.hb[d], e.hc[d], e.p)
             iv(d)  == \* image of D[d+1] in B[d]
                 IF d = L \/ Len(e.B[d]) = 0 \/ Len(e.B[d + 1]) = 0 THEN "ok"
                 ELSE IF ~ (ColsOK(e.ic[d], Len(e.ib[d]), Len(e.B[d]))
                            /\ ColsOK(e.pre[d + 1], Len(e.ib[d]), Len(e.B[d + 1])))
                      THEN "image-shape"
                 ELSE ImVerdict(e.B[d + 1], e.B[d], e.D[d + 1],
                        [i \in 1 .. Len(e.B[d]) |-> [j \in 1 .. Len(e.B[d + 1]) |->
                            e.D[d + 1][j][i]]], e.ib[d], e.ic[d], e.pre[d + 1], e.p)
             bad == {d \in 1 .. L : hv(d) # "ok"}
             badi == {d \in 1 .. L : iv(d) # "ok"}
         IN  IF bad # {} THEN hv(Min(bad))
             ELSE IF badi # {} THEN iv(Min(badi)) ELSE "ok"

JBroken(e) ==
    IF e.exc # "" THEN "extension-raised"
    ELSE BrokenVerdict(e.bars, e.bd, e.maxr, e.rb, e.p)

\* ---- barcode basis objects: a state machine over (bars, coords, broken) -----
(* One step per method call.  State: bars, coordinate columns (or none),      *)
(* broken differentials by columns (or none), sorted flag.                    *)
RoundedLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] > b[2])

JNew(e) ==  \* constructor: trivial and inverted bars are dropped
    IF e.exc # "" THEN "basis-constructor-raised"
    ELSE LET keep == SelectSeq([i \in 1 .. Len(e.bars) |-> i],
                               LAMBDA i : e.bars[i][1] < e.bars[i][2])
             want == [k \in 1 .. Len(keep) |-> e.bars[keep[k]]]
         IN  CASE e.dim # Len(keep) -> "basis-dimension"
             []   e.got # want      -> "basis-bars"
             []   e.hascoord /\ e.gotc # [k \in 1 .. Len(keep) |-> e.coord[keep[k]]]
                                    -> "basis-coordinates"
             []   e.wd # <<>> /\ e.wd # [i \in 1 .. Len(e.bars) |->
                                IF e.bars[i][1] < e.bars[i][2] THEN 1 ELSE 0]
                                    -> "basis-well-defined-flags"
             []   OTHER -> "ok"

JReject(e) == IF e.exc = "ValueError" THEN "ok" ELSE "basis-accepts-inconsistent-data"

JSort(e) ==
    IF e.exc # "" THEN "basis-sort-raised"
    ELSE LET n == Len(e.bars) IN
         CASE Len(e.order) # n \/ {e.order[i] + 1 : i \in 1 .. n} # 1 .. n
                                    -> "basis-sort-not-a-permutation"
         []   e.got # [k \in 1 .. n |-> e.bars[e.order[k] + 1]]
                                    -> "basis-sort-bars-differ-from-order"
         []   \E k \in 1 .. (n - 1) : RoundedLess(e.got[k + 1], e.got[k])
                                    -> "basis-not-sorted"
         []   e.hascoord /\ e.gotc # [k \in 1 .. n |-> e.coord[e.order[k] + 1]]
                                    -> "basis-sort-coordinates"
         []   e.broken /\ e.gotbd # [k \in 1 .. n |-> [i \in 1 .. n |->
                            e.bd[e.order[k] + 1][e.order[i] + 1]]]
                                    -> "basis-sort-broken-differentials"
         []   ~ e.flag              -> "basis-sorted-flag"
         []   OTHER -> "ok"

JQuery(e) ==
    IF e.exc # "" THEN "basis-query-raised"
    ELSE LET n == Len(e.bars)
             set(P(_)) == SetToSortSeq({i \in 1 .. n : P(i)}, <)
             idx(s) == [k \in 1 .. Len(s) |-> s[k] - 1]
         IN  CASE e.active # idx(set(LAMBDA i : e.bars[i][1] <= e.r /\ e.r < e.bars[i][2]))
                       -> "basis-active"
             []   e.birth # idx(set(LAMBDA i : e.bars[i][1] = e.r)) -> "basis-birth"
             []   e.death # idx(set(LAMBDA i : e.bars[i][2] = e.r)) -> "basis-death"
             []   e.changes # SetToSortSeq(Ends(e.bars), <) -> "basis-changes"
             []   OTHER -> "ok"

\* rows dying at r are replaced, in every column, by their broken differential
JUpdate(e) ==
    IF e.exc # "" THEN "basis-update-raised"
    ELSE LET n == Len(e.bars)
             D == {i \in 1 .. n : e.bars[i][2] = e.r}
             upd(v) == [i \in 1 .. n |->
                 ((IF i \in D THEN 0 ELSE v[i])
                  + FoldSet(LAMBDA k, acc : (acc + e.bd[k][i] * v[k]) % e.p, 0, D)) % e.p]
         IN  IF \A j \in 1 .. Len(e.M) : VecEqMod(upd(e.M[j]), e.got[j], e.p)
             THEN "ok" ELSE "basis-update-broken"

JudgePersist(e) ==
    IF e.exc \in {"Malformed", "Timeout"} THEN "call-" \o e.exc
    ELSE CASE e.op = "ik"     -> JIK(e)
         []   e.op = "quot"   -> JQuot(e)
         []   e.op = "chain"  -> JChain(e)
         []   e.op = "broken" -> JBroken(e)
         []   e.op = "new"    -> JNew(e)
         []   e.op = "reject" -> JReject(e)
         []   e.op = "sort"   -> JSort(e)
         []   e.op = "query"  -> JQuery(e)
         []   e.op = "update" -> JUpdate(e)
         []   OTHER -> "unknown-op"
=============================================================================
