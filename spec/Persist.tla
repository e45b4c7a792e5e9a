------------------------------- MODULE Persist -------------------------------
(***************************************************************************)
(* Tame persistence modules given by barcodes, over integer radii.         *)
(*                                                                         *)
(* A bar is <<birth, death>> (half open).  A module with barcode B has at  *)
(* radius r the basis {i : B[i] alive at r}; the transition r -> s keeps   *)
(* the generators still alive and sends the others to zero.  A persistence *)
(* morphism is a matrix, rows indexed by the range, columns by the domain. *)
(*                                                                         *)
(* Barcodes of derived modules are characterised by their rank invariant:  *)
(* for all r <= s the number of bars alive on the whole of [r, s] is the   *)
(* rank of the transition map r -> s.                                      *)
(***************************************************************************)
EXTENDS GaussSpec

Alive(bars, r)     == {i \in 1 .. Len(bars) : bars[i][1] <= r /\ r < bars[i][2]}
AliveSeq(bars, r)  == SetToSortSeq(Alive(bars, r), <)
Ends(bars)         == UNION {{bars[i][1], bars[i][2]} : i \in 1 .. Len(bars)}
NumAlive(bars, r, s) == Cardinality({i \in 1 .. Len(bars) :
                            bars[i][1] <= r /\ s < bars[i][2]})
ProperBars(bars)   == \A i \in 1 .. Len(bars) : bars[i][1] < bars[i][2]
InOrder(bars)      == \A i \in 1 .. (Len(bars) - 1) :
                        \/ bars[i][1] < bars[i + 1][1]
                        \/ bars[i][1] = bars[i + 1][1] /\ bars[i][2] >= bars[i + 1][2]

\* restriction of a vector to the indices in the sequence I
At(v, I)      == [k \in 1 .. Len(I) |-> v[I[k]]]
\* vector with all entries outside of the set S replaced by zero
Keep(v, S)    == [i \in 1 .. Len(v) |-> IF i \in S THEN v[i] ELSE 0]

\* columns J of the matrix whose columns are C, restricted to the rows I
Sub(C, I, J)  == [k \in 1 .. Len(J) |-> At(C[J[k]], I)]

\* Two barcodes have the same rank invariant on the radii set S
SameRanks(bars, rk(_, _), S) ==
    \A r \in S : \A s \in S : r <= s => NumAlive(bars, r, s) = rk(r, s)

\* a matrix (by columns C) defines a morphism from bars A to bars B
WellDefined(A, B, C, p) ==
    \A j \in 1 .. Len(A) : \A i \in 1 .. Len(B) :
        C[j][i] % p # 0 => B[i][1] <= A[j][1] /\ B[i][2] <= A[j][2]

\* ---- image and kernel of a morphism -----------------------------------------
ImRank(A, B, C, r, s, p) ==
    Rank(Sub(C, AliveSeq(B, s), AliveSeq(A, r)), p)

KerRank(A, B, C, r, s, p) ==
    LET D == SetToSortSeq(Alive(A, r) \ Alive(A, s), <)
        I == AliveSeq(B, r)
        J == AliveSeq(A, r)
    IN  (Len(J) - Rank(Sub(C, I, J), p)) - (Len(D) - Rank(Sub(C, I, D), p))

\* Im: bars ib, coordinates ic (columns, in B); pre (columns, in A)
ImVerdict(A, B, C, F, ib, ic, pre, p) ==
    LET S == Ends(A) \cup Ends(B) \cup Ends(ib)
    IN  CASE ~ ProperBars(ib) -> "image-improper-bar"
        []   ~ InOrder(ib)    -> "image-not-sorted"
        []   ~ SameRanks(ib, LAMBDA r, s : ImRank(A, B, C, r, s, p), S)
                              -> "image-wrong-barcode"
        []   \E k \in 1 .. Len(ib) : \E i \in 1 .. Len(B) :
                ic[k][i] % p # 0 /\ B[i][1] > ib[k][1] -> "image-uses-unborn"
        []   \E k \in 1 .. Len(ib) :
                ~ IsZero(At(ic[k], AliveSeq(B, ib[k][2])), p)
                              -> "image-representative-outlives-bar"
        []   \E r \in S : ~ Independent(Sub(ic, AliveSeq(B, r), AliveSeq(ib, r)), p)
                              -> "image-not-independent"
        []   \E k \in 1 .. Len(ib) : \E j \in 1 .. Len(A) :
                pre[k][j] % p # 0 /\ A[j][1] > ib[k][1] -> "preimage-uses-unborn"
        []   \E k \in 1 .. Len(ib) :
                LET r == ib[k][1]
                    w == MatVec(F, Keep(pre[k], Alive(A, r)), p)
                    I == AliveSeq(B, r)
                IN  ~ VecEqMod(At(w, I), At(ic[k], I), p)
                              -> "preimage-does-not-map-to-image"
        []   OTHER -> "ok"

KerVerdict(A, B, C, F, kb, kc, p) ==
    LET S == Ends(A) \cup Ends(B) \cup Ends(kb)
    IN  CASE ~ ProperBars(kb) -> "kernel-improper-bar"
        []   ~ InOrder(kb)    -> "kernel-not-sorted"
        []   ~ SameRanks(kb, LAMBDA r, s : KerRank(A, B, C, r, s, p), S)
                              -> "kernel-wrong-barcode"
        []   \E k \in 1 .. Len(kb) : \E i \in 1 .. Len(A) :
                kc[k][i] % p # 0 /\ A[i][1] > kb[k][1] -> "kernel-uses-unborn"
        []   \E k \in 1 .. Len(kb) :
                LET r == kb[k][1] IN
                ~ IsZero(At(MatVec(F, Keep(kc[k], Alive(A, r)), p), AliveSeq(B, r)), p)
                              -> "kernel-element-not-in-kernel"
        []   \E k \in 1 .. Len(kb) :
                ~ IsZero(At(kc[k], AliveSeq(A, kb[k][2])), p)
                              -> "kernel-representative-outlives-bar"
        []   \E r \in S : ~ Independent(Sub(kc, AliveSeq(A, r), AliveSeq(kb, r)), p)
                              -> "kernel-not-independent"
        []   OTHER -> "ok"

IKVerdict(A, B, F, ib, ic, kb, kc, pre, p) ==
    LET C == [j \in 1 .. Len(A) |-> ColOf(F, j)]
        v == ImVerdict(A, B, C, F, ib, ic, pre, p)
    IN  IF v # "ok" THEN v ELSE KerVerdict(A, B, C, F, kb, kc, p)

\* ---- quotients --------------------------------------------------------------
(* N, M: vectors of the module B (columns), each with its own bar: the vector *)
(* is considered from its birth on, and vanishes (in B, respectively modulo   *)
(* what N generates) from its death on.                                       *)
(* The quotient <N, M> / <N>: image of the transition r -> s has rank         *)
(*    rank(M alive at r, N alive at s; rows alive at s) - rank(N alive at s)  *)
QuotRank(B, nb, nc, mb, mc, r, s, p) ==
    LET I == AliveSeq(B, s)
        n == Sub(nc, I, AliveSeq(nb, s))
        E == Echelon(n, p)
    IN  Len(FoldLeft(LAMBDA acc, v : EchInsert(acc, v, p), E,
                     Sub(mc, I, AliveSeq(mb, r)))) - Len(E)

QuotVerdict(B, nb, nc, mb, mc, qb, qc, p) ==
    LET S == Ends(B) \cup Ends(nb) \cup Ends(mb) \cup Ends(qb)
        NE(r) == Echelon(Sub(nc, AliveSeq(B, r), AliveSeq(nb, r)), p)
        ME(r) == Echelon(Sub(nc, AliveSeq(B, r), AliveSeq(nb, r))
                         \o Sub(mc, AliveSeq(B, r), AliveSeq(mb, r)), p)
    IN  CASE ~ ProperBars(qb) -> "quotient-improper-bar"
        []   ~ SameRanks(qb, LAMBDA r, s : QuotRank(B, nb, nc, mb, mc, r, s, p), S)
                              -> "quotient-wrong-barcode"
        []   \E k \in 1 .. Len(qb) : \E i \in 1 .. Len(B) :
                qc[k][i] % p # 0 /\ B[i][1] > qb[k][1] -> "quotient-uses-unborn"
        []   \E k \in 1 .. Len(qb) :
                ~ InSpan(ME(qb[k][1]), At(qc[k], AliveSeq(B, qb[k][1])), p)
                              -> "quotient-representative-not-in-module"
        []   \E k \in 1 .. Len(qb) :
                ~ InSpan(NE(qb[k][2]), At(qc[k], AliveSeq(B, qb[k][2])), p)
                              -> "quotient-representative-outlives-bar"
        []   \E r \in S :
                LET E == NE(r)
                    h == Sub(qc, AliveSeq(B, r), AliveSeq(qb, r))
                IN  Len(FoldLeft(LAMBDA acc, v : EchInsert(acc, v, p), E, h))
                        # Len(E) + Len(h)
                              -> "quotient-not-independent"
        []   OTHER -> "ok"

\* ---- homology of a chain complex of persistence modules ---------------------
(* D: morphism Bd -> Bl (columns dcols), U: morphism Bu -> Bd (columns ucols)  *)
(* rank of H_r -> H_s = dim(Z_r -> s + B_s) - dim B_s                          *)
\* dimension of (image of ker(D at r) in Bd at s) + (boundaries at s)
CycleEchelon(Bl, Bd, dc, r, p) ==
    \* basis of the kernel of D at radius r, as vectors over all of Bd
    LET I == AliveSeq(Bl, r)
        J == AliveSeq(Bd, r)
        n == Len(Bd)
        \* reduce pairs (image, combination)
        step(acc, j) ==
            LET w == FoldLeft(LAMBDA x, e :
                        LET c == x.v[e.piv] % p IN
                        IF c = 0 THEN x
                        ELSE [v |-> VecAxpy(x.v, (p - c) % p, e.vec, p),
                              t |-> VecAxpy(x.t, (p - c) % p, e.t, p)],
                        [v |-> At(dc[j], I), t |-> UnitVec(n, j)], acc.E)
                k == FirstNZ(w.v, p)
            IN  IF k = 0 THEN [acc EXCEPT !.Z = Append(@, w.t)]
                ELSE [acc EXCEPT !.E = Append(@,
                        [piv |-> k,
                         vec |-> VecScale(Inv(w.v[k], p), w.v, p),
                         t   |-> VecScale(Inv(w.v[k], p), w.t, p)])]
    IN  FoldLeft(step, [E |-> <<>>, Z |-> <<>>], J).Z

HomVerdict(Bl, Bd, Bu, dc, uc, hb, hc, p) ==
    LET S  == Ends(Bl) \cup Ends(Bd) \cup Ends(Bu) \cup Ends(hb)
        Z  == TLCEval([r \in S |-> CycleEchelon(Bl, Bd, dc, r, p)])
        BE == TLCEval([s \in S |-> Echelon(Sub(uc, AliveSeq(Bd, s), AliveSeq(Bu, s)), p)])
        rk(r, s) == Len(FoldLeft(LAMBDA acc, z : EchInsert(acc, At(z, AliveSeq(Bd, s)), p),
                                 BE[s], Z[r])) - Len(BE[s])
    IN  CASE ~ ProperBars(hb) -> "homology-improper-bar"
        []   ~ SameRanks(hb, rk, S) -> "homology-wrong-barcode"
        []   \E k \in 1 .. Len(hb) : \E i \in 1 .. Len(Bd) :
                hc[k][i] % p # 0 /\ Bd[i][1] > hb[k][1] -> "homology-uses-unborn"
        []   \E k \in 1 .. Len(hb) :
                LET r == hb[k][1]
                    I == AliveSeq(Bl, r)
                    J == AliveSeq(Bd, r)
                IN  \E i \in 1 .. Len(I) :
                       Dot([x \in 1 .. Len(J) |-> dc[J[x]][I[i]]], At(hc[k], J), p) # 0
                              -> "homology-representative-not-a-cycle"
        []   \E k \in 1 .. Len(hb) :
                ~ InSpan(BE[hb[k][2]], At(hc[k], AliveSeq(Bd, hb[k][2])), p)
                              -> "homology-representative-outlives-bar"
        []   \E r \in S :
                LET h == Sub(hc, AliveSeq(Bd, r), AliveSeq(hb, r))
                IN  Len(FoldLeft(LAMBDA acc, v : EchInsert(acc, v, p), BE[r], h))
                        # Len(BE[r]) + Len(h)
                              -> "homology-not-independent"
        []   OTHER -> "ok"

\* ---- broken bases (extension problem) ---------------------------------------
(* Generators with bars; when generator i dies it equals the combination      *)
(* bd[i] (a column) of the other generators instead of zero.  The direct sum  *)
(* is cut at radius maxr.                                                      *)
BrokenRank(bars, bd, maxr, r, s, p) ==
    IF s >= maxr THEN 0 ELSE
    LET n   == Len(bars)
        dead == SetToSortSeq({i \in 1 .. n : bars[i][2] <= s}, <)
        born == SetToSortSeq({i \in 1 .. n : bars[i][1] <= r}, <)
        rel == [k \in 1 .. Len(dead) |->
                  [i \in 1 .. n |-> ((IF i = dead[k] THEN 1 ELSE 0) - bd[dead[k]][i]) % p]]
        E   == Echelon(rel, p)
    IN  Len(FoldLeft(LAMBDA acc, i : EchInsert(acc, UnitVec(n, i), p), E, born)) - Len(E)

BrokenVerdict(bars, bd, maxr, rb, p) ==
    LET S == Ends(bars) \cup Ends(rb) \cup {maxr}
    IN  CASE ~ ProperBars(rb) -> "extension-improper-bar"
        []   ~ SameRanks(rb, LAMBDA r, s : BrokenRank(bars, bd, maxr, r, s, p), S)
                -> "extension-wrong-barcode"
        []   OTHER -> "ok"
=============================================================================
