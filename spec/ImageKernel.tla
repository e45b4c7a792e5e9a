----------------------------- MODULE ImageKernel -----------------------------
(***************************************************************************)
(* Design of the image/kernel computation: a sweep over the radii where a  *)
(* bar of the domain or of the range starts or ends.  At each radius first *)
(* the kernel generators that lost their pivot are reduced again (this may *)
(* close image bars), then the image columns that are new, lost their      *)
(* pivot, or share it with a column reduced before.                        *)
(* One action per column; TLC explores every morphism between every pair   *)
(* of sorted barcodes within the constants, and at the end the call-level  *)
(* relation of Persist must hold.                                          *)
(***************************************************************************)
EXTENDS Persist, Export
CONSTANTS NA, NB, MaxR, Primes
VARIABLES A, B, F, p, rads, ri, ph, c, newp,
          imc, T, pivI, imEnd, ker
vars == <<A, B, F, p, rads, ri, ph, c, newp, imc, T, pivI, imEnd, ker>>

Bars == {b \in (0 .. MaxR) \X (0 .. MaxR) : b[1] < b[2]}
Sorted(n) == {s \in [1 .. n -> Bars] : InOrder(s)}
NotYet == 0 - 2
Dead   == 0 - 1

Init ==
    /\ p \in Primes
    /\ A \in Sorted(NA) /\ B \in Sorted(NB)
    /\ F \in [1 .. NB -> [1 .. NA -> 0 .. (p - 1)]]
    /\ WellDefined(A, B, [j \in 1 .. NA |-> ColOf(F, j)], p)
    /\ \A j \in 1 .. NA : \A i \in 1 .. NB :   \* no entries on dead rows
          F[i][j] # 0 => A[j][1] < B[i][2]
    /\ rads = SetToSortSeq(Ends(A) \cup Ends(B), <)
    /\ ri = 1 /\ ph = "ker" /\ c = 1 /\ newp = {}
    /\ imc  = [j \in 1 .. NA |-> ColOf(F, j)]
    /\ T    = [j \in 1 .. NA |-> UnitVec(NA, j)]
    /\ pivI = [j \in 1 .. NA |-> NotYet]
    /\ imEnd = [j \in 1 .. NA |-> 0]
    /\ ker  = <<>>

rad    == rads[ri]
ActA   == Alive(A, rad)
ActB   == Alive(B, rad)
DyingA == {j \in 1 .. NA : A[j][2] = rad}
DyingB == {i \in 1 .. NB : B[i][2] = rad}
BornA  == {j \in 1 .. NA : A[j][1] = rad}
PivotIn(v, S) == LET nz == {i \in S : v[i] % p # 0} IN IF nz = {} THEN Dead ELSE Max(nz)

\* reduce the pair (v, t) by previous columns (vs, ts) with pivots pv, rows S
RECURSIVE Red(_, _, _, _, _, _)
Red(v, t, vs, ts, pv, S) ==
    LET k == PivotIn(v, S)
        K == {q \in 1 .. Len(pv) : pv[q] = k}
    IN  IF k = Dead \/ K = {} THEN [v |-> v, t |-> t, piv |-> k]
        ELSE LET u == Min(K)
                 q == (p - MulMod(v[k], Inv(vs[u][k], p), p)) % p
             IN  Red(VecAxpy(v, q, vs[u], p), VecAxpy(t, q, ts[u], p), vs, ts, pv, S)

KerStep ==
    /\ ph = "ker" /\ c <= Len(ker)
    /\ IF ker[c].piv \in DyingA \cup newp /\ ker[c].piv # Dead
       THEN LET kv  == [k \in 1 .. (c - 1) |-> ker[k].vec]
                res == Red(ker[c].vec, ker[c].vec, kv, kv,
                           [k \in 1 .. (c - 1) |-> ker[k].piv], ActA)
                z   == Keep(res.v, ActA)
                w   == MatVec(F, z, p)
            IN  IF res.piv # Dead
                THEN /\ newp' = newp \cup {res.piv}
                     /\ ker' = [ker EXCEPT ![c].vec = res.v, ![c].piv = res.piv]
                     /\ IF pivI[res.piv] # Dead
                        THEN /\ imc'   = [imc EXCEPT ![res.piv] = w]
                             /\ imEnd' = [imEnd EXCEPT ![res.piv] = rad]
                             /\ pivI'  = [pivI EXCEPT ![res.piv] = Dead]
                             /\ T'     = [T EXCEPT ![res.piv] = z]
                        ELSE UNCHANGED <<imc, imEnd, pivI, T>>
                ELSE /\ ker' = [ker EXCEPT ![c].vec = res.v, ![c].piv = Dead,
                                           ![c].death = rad]
                     /\ UNCHANGED <<newp, imc, imEnd, pivI, T>>
       ELSE UNCHANGED <<newp, ker, imc, imEnd, pivI, T>>
    /\ c' = c + 1
    /\ UNCHANGED <<A, B, F, p, rads, ri, ph>>

ToImage == /\ ph = "ker" /\ c = Len(ker) + 1
           /\ ph' = "im" /\ c' = 1 /\ newp' = {}
           /\ UNCHANGED <<A, B, F, p, rads, ri, imc, T, pivI, imEnd, ker>>

ImStep ==
    /\ ph = "im" /\ c <= NA
    /\ IF c \in BornA \/ (pivI[c] > 0 /\ pivI[c] \in DyingB \cup newp)
       THEN LET res == Red(imc[c], T[c], imc, T, SubSeq(pivI, 1, c - 1), ActB)
            IN  /\ imc'  = [imc EXCEPT ![c] = res.v]
                /\ T'    = [T EXCEPT ![c] = res.t]
                /\ pivI' = [pivI EXCEPT ![c] = res.piv]
                /\ IF res.piv # Dead
                   THEN newp' = newp \cup {res.piv} /\ UNCHANGED <<imEnd, ker>>
                   ELSE /\ imEnd' = [imEnd EXCEPT ![c] = rad]
                        /\ ker' = IF c \in DyingA THEN ker
                                  ELSE Append(ker, [birth |-> rad, death |-> 0,
                                                    vec |-> res.t, piv |-> c])
                        /\ newp' = newp
       ELSE UNCHANGED <<imc, T, pivI, newp, imEnd, ker>>
    /\ c' = c + 1
    /\ UNCHANGED <<A, B, F, p, rads, ri, ph>>

Advance == /\ ph = "im" /\ c = NA + 1 /\ ri < Len(rads)
           /\ ri' = ri + 1 /\ ph' = "ker" /\ c' = 1 /\ newp' = {}
           /\ UNCHANGED <<A, B, F, p, rads, imc, T, pivI, imEnd, ker>>

\* the results, in standard order (any order among equal bars)
ImAll  == [j \in 1 .. NA |-> [bar |-> <<A[j][1], IF pivI[j] = Dead THEN imEnd[j]
                                                  ELSE rads[Len(rads)]>>,
                              v |-> imc[j], t |-> T[j]]]
KerAll == [k \in 1 .. Len(ker) |-> [bar |-> <<ker[k].birth,
                IF ker[k].piv = Dead THEN ker[k].death ELSE rads[Len(rads)]>>,
                v |-> ker[k].vec]]
Proper(x) == x.bar[1] < x.bar[2]
Before(x, y) == x.bar[1] < y.bar[1] \/ (x.bar[1] = y.bar[1] /\ x.bar[2] >= y.bar[2])
Order(s) == SortSeq(SelectSeq(s, Proper), Before)
Field(s, f) == [k \in 1 .. Len(s) |-> s[k][f]]

Finish == /\ ph = "im" /\ c = NA + 1 /\ ri = Len(rads)
          /\ ph' = "done"
          /\ Out([A |-> A, B |-> B, F |-> F, p |-> p,
                  im |-> Field(Order(ImAll), "bar"), ker |-> Field(Order(KerAll), "bar")])
          /\ UNCHANGED <<A, B, F, p, rads, ri, c, newp, imc, T, pivI, imEnd, ker>>

Next == KerStep \/ ToImage \/ ImStep \/ Advance \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* pivots of the living image columns stay pairwise distinct between phases
PivotsDistinct ==
    (ph = "im" /\ c = NA + 1) =>
        \A j, k \in 1 .. NA : j # k /\ pivI[j] > 0 => pivI[j] # pivI[k]
\* preimages stay consistent: imc = F T on the rows alive at the current radius
Consistent ==
    \A j \in 1 .. NA : LET w == MatVec(F, T[j], p) IN
        \A i \in ActB : (w[i] - imc[j][i]) % p = 0
Post == ph = "done" =>
    LET im == Order(ImAll)
        k  == Order(KerAll)
    IN  IKVerdict(A, B, F, Field(im, "bar"), Field(im, "v"),
                  Field(k, "bar"), Field(k, "v"), Field(im, "t"), p) = "ok"
Terminates == <>(ph = "done")
=============================================================================
