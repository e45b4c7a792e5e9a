------------------------------ MODULE Simplicial ------------------------------
(***************************************************************************)
(* Vietoris-Rips and flag complexes, boundary operators, and persistent    *)
(* homology of a filtered complex.                                         *)
(*                                                                         *)
(* A simplex is a strictly increasing sequence of vertices (0-based, as in *)
(* the implementation).  w is a symmetric function of pairs of vertices    *)
(* given as a matrix (sequence of rows).                                   *)
(***************************************************************************)
EXTENDS Persist

W(w, a, b)     == w[a + 1][b + 1]
Increasing(s)  == \A i \in 1 .. (Len(s) - 1) : s[i] < s[i + 1]
Verts(s)       == {s[i] : i \in 1 .. Len(s)}
NoRepeats(seq) == \A i, j \in 1 .. Len(seq) : i < j => seq[i] # seq[j]
Face(s, k)     == [i \in 1 .. (Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]

\* all cliques with k vertices of the graph {a,b} \in E, on vertices 0..n-1:
\* by definition, and grown vertex by vertex (which is equal, see Flag, and can
\* be evaluated on hundreds of vertices)
DefCliques(n, k, E(_, _)) ==
    {S \in kSubset(k, 0 .. (n - 1)) : \A a, b \in S : a < b => E(a, b)}
CliquesOn(V, k, E(_, _)) ==
    LET Ext(L) == UNION {{S \cup {v} :
                     v \in {u \in V : u > Max(S) /\ \A a \in S : E(a, u)}} : S \in L}
    IN  FoldLeft(LAMBDA L, i : TLCEval(Ext(L)), {{v} : v \in V},
                 [i \in 1 .. (k - 1) |-> i])
Cliques(n, k, E(_, _)) == CliquesOn(0 .. (n - 1), k, E)

Diam(w, S) == IF Cardinality(S) < 2 THEN 0
              ELSE Max({W(w, a, b) : <<a, b>> \in {q \in S \X S : q[1] < q[2]}})

\* C[k]: list of the simplices with k vertices (k >= 2); R[k] their radii
\* the list of level k is exactly the set of cliques, each once
LevelVerdict(n, k, E(_, _), Ck) ==
    CASE \E i \in 1 .. Len(Ck) : Len(Ck[i]) # k -> "complex-wrong-dimension"
    []   \E i \in 1 .. Len(Ck) : ~ Increasing(Ck[i]) -> "complex-simplex-not-increasing"
    []   {Verts(Ck[i]) : i \in 1 .. Len(Ck)} # Cliques(n, k, E)
             -> "complex-not-the-cliques"
    []   Cardinality({Verts(Ck[i]) : i \in 1 .. Len(Ck)}) # Len(Ck)
             -> "complex-simplex-repeated"
    []   OTHER -> "ok"

VRLevel(n, w, maxr, k, Ck, Rk) ==
    LET v == LevelVerdict(n, k, LAMBDA a, b : W(w, a, b) < maxr, Ck)
    IN  CASE v # "ok" -> v
        []   Len(Rk) # Len(Ck) -> "rips-radii-length"
        []   \E i \in 1 .. Len(Ck) : Rk[i] # Diam(w, Verts(Ck[i])) -> "rips-wrong-radius"
        []   \E i \in 1 .. (Len(Rk) - 1) : Rk[i] > Rk[i + 1] -> "rips-not-sorted"
        []   OTHER -> "ok"

\* ---- boundary operators ------------------------------------------------------
\* coefficient of face f in the boundary of s: (-1)^(position of missing vertex)
Coef(s, f) ==
    LET ks == {k \in 1 .. Len(s) : Face(s, k) = f}
    IN  IF ks = {} THEN 0 ELSE IF Min(ks) % 2 = 1 THEN 1 ELSE 0 - 1

\* D: columns; rows indexed by the simplices lower, columns by upper
\* sign = 1 or -1: global sign of the degree
BoundaryWithSign(lower, upper, D, sign, p) ==
    \A j \in 1 .. Len(upper) : \A i \in 1 .. Len(lower) :
        (D[j][i] - sign * Coef(upper[j], lower[i])) % p = 0
IsBoundary(lower, upper, D, p) ==
    \/ BoundaryWithSign(lower, upper, D, 1, p)
    \/ BoundaryWithSign(lower, upper, D, 0 - 1, p)
Boundary(lower, upper, p) ==
    [j \in 1 .. Len(upper) |-> [i \in 1 .. Len(lower) |-> Coef(upper[j], lower[i]) % p]]

\* ---- persistent homology in one degree ----------------------------------------
(* nl, rl; nd, rd; nu, ru: number and radii of the simplices one below, in,   *)
(* and one above the degree, sorted by radius; dc, uc boundary matrices by    *)
(* columns.  hb, hc: bars and representatives.  Everything dies at maxr.      *)
(* Bars with independent representatives whose number is, at every radius,    *)
(* the Betti number form a barcode basis.                                      *)
UpTo(rs, r)  == Cardinality({i \in 1 .. Len(rs) : rs[i] <= r})
\* ranks of all prefixes of a list of columns
PrefixEch(cols, p) ==
    FoldLeft(LAMBDA acc, v : Append(acc, EchInsert(acc[Len(acc)], v, p)), << <<>> >>, cols)

PHVerdict(rd, ru, dc, uc, maxr, hb, hc, p) ==
    LET S   == ({rd[i] : i \in 1 .. Len(rd)} \cup {ru[i] : i \in 1 .. Len(ru)}
                \cup {hb[k][1] : k \in 1 .. Len(hb)} \cup {hb[k][2] : k \in 1 .. Len(hb)})
        PD  == PrefixEch(dc, p)
        ED  == [i \in 1 .. (Len(dc) + 1) |-> Len(PD[i])]
        EU  == PrefixEch(uc, p)
        SetR == {r \in S : r < maxr}
        betti(r) == UpTo(rd, r) - ED[UpTo(rd, r) + 1] - Len(EU[UpTo(ru, r) + 1])
        bnd(r)   == EU[UpTo(ru, r) + 1]
        n == Len(rd)
    IN  CASE \E k \in 1 .. Len(hb) : hb[k][1] >= hb[k][2] \/ hb[k][2] > maxr
                 -> "homology-improper-bar"
        []   \E r \in SetR : NumAlive(hb, r, r) # betti(r) -> "homology-betti-number"
        []   \E k \in 1 .. Len(hb) : \E i \in 1 .. n :
                hc[k][i] % p # 0 /\ rd[i] > hb[k][1] -> "homology-cycle-uses-unborn"
        []   \E k \in 1 .. Len(hb) :
                Len(dc) > 0 /\ ~ IsZero(ColComb(dc, hc[k], Len(dc[1]), p), p)
                 -> "homology-representative-not-a-cycle"
        []   \E k \in 1 .. Len(hb) :
                hb[k][2] < maxr /\ ~ InSpan(bnd(hb[k][2]), hc[k], p)
                 -> "homology-cycle-outlives-bar"
        []   \E r \in SetR :
                LET a == AliveSeq(hb, r)
                    E == bnd(r)
                IN  Len(FoldLeft(LAMBDA acc, k : EchInsert(acc, hc[k], p), E, a))
                        # Len(E) + Len(a)
                 -> "homology-not-independent"
        []   OTHER -> "ok"

\* boundaries: bars [radius, maxr), coordinates, and chains they bound
BndVerdict(rd, ru, uc, maxr, ib, ic, pre, p) ==
    LET S == {r \in {ru[i] : i \in 1 .. Len(ru)} \cup {ib[k][1] : k \in 1 .. Len(ib)} : r < maxr}
        EU == PrefixEch(uc, p)
    IN  CASE \E k \in 1 .. Len(ib) : ib[k][2] # maxr \/ ib[k][1] >= maxr
                 -> "boundary-improper-bar"
        []   \E r \in S : NumAlive(ib, r, r) # Len(EU[UpTo(ru, r) + 1])
                 -> "boundary-wrong-barcode"
        []   \E k \in 1 .. Len(ib) : \E i \in 1 .. Len(rd) :
                ic[k][i] % p # 0 /\ rd[i] > ib[k][1] -> "boundary-uses-unborn"
        []   ~ Independent(ic, p) -> "boundary-not-independent"
        []   \E k \in 1 .. Len(ib) : \E j \in 1 .. Len(ru) :
                pre[k][j] % p # 0 /\ ru[j] > ib[k][1] -> "preimage-uses-unborn"
        []   \E k \in 1 .. Len(ib) :
                ~ VecEqMod(ColComb(uc, pre[k], Len(rd), p), ic[k], p)
                 -> "preimage-does-not-map-to-boundary"
        []   OTHER -> "ok"
=============================================================================
