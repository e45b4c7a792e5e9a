------------------------------ MODULE ChainSpec ------------------------------
(***************************************************************************)
(* Collections of local chains.  A collection has, for every region, rows  *)
(* addressed by references (natural numbers).  It denotes one matrix per   *)
(* region with rows 0 .. NR-1, absent references being zero rows.  A        *)
(* collection is written as a sequence over the regions of records         *)
(*   [ref |-> increasing references, row |-> one row per reference].       *)
(***************************************************************************)
EXTENDS Fp

WellFormed(c, wd) ==
    /\ Len(c) = Len(wd)
    /\ \A k \in 1 .. Len(c) :
          /\ Len(c[k].ref) = Len(c[k].row)
          /\ \A i \in 1 .. Len(c[k].row) : Len(c[k].row[i]) = wd[k]
          /\ \A i \in 1 .. (Len(c[k].ref) - 1) : c[k].ref[i] < c[k].ref[i + 1]

\* the denoted matrices: region -> reference -> row
RowAt(reg, r, n, p) ==
    LET I == {i \in 1 .. Len(reg.ref) : reg.ref[i] = r}
    IN  IF I = {} THEN ZeroVec(n) ELSE VecMod(reg.row[Min(I)], p)
Den(c, wd, NR, p) ==
    [k \in 1 .. Len(wd) |-> [r \in 0 .. (NR - 1) |-> RowAt(c[k], r, wd[k], p)]]

ZeroDen(wd, NR) == [k \in 1 .. Len(wd) |-> [r \in 0 .. (NR - 1) |-> ZeroVec(wd[k])]]

\* operations on denotations
DSet(d, k, refs, rows, p) ==
    [d EXCEPT ![k] = [r \in DOMAIN d[k] |->
        LET I == {i \in 1 .. Len(refs) : refs[i] = r}
        IN  IF I = {} THEN ZeroVec(Len(d[k][r])) ELSE VecMod(rows[Min(I)], p)]]
DAdd(a, b, p) ==
    [k \in 1 .. Len(a) |-> [r \in DOMAIN a[k] |-> VecAdd(a[k][r], b[k][r], p)]]
DNeg(a, p) ==
    [k \in 1 .. Len(a) |-> [r \in DOMAIN a[k] |-> VecScale(p - 1, a[k][r], p)]]
\* row s of the result is the combination of all rows with coefficients co[s]
DSums(a, co, p) ==
    [k \in 1 .. Len(a) |-> [s \in DOMAIN a[k] |->
        IF s >= Len(co) THEN ZeroVec(Len(a[k][s]))
        ELSE FoldSet(LAMBDA r, acc : VecAxpy(acc, co[s + 1][r + 1] % p, a[k][r], p),
                     ZeroVec(Len(a[k][s])),
                     {r \in DOMAIN a[k] : r + 1 <= Len(co[s + 1])})]]
DPoke(d, k, r, row, p) == [d EXCEPT ![k][r] = VecMod(row, p)]
=============================================================================
