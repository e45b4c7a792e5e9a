-------------------------------- MODULE Cech --------------------------------
(***************************************************************************)
(* Chains of the double complex of a cover, given sparsely: a chain at      *)
(* (a, b) is a sequence of entries <<cell, simplex, coefficient>>, cell an  *)
(* index into cells[a + 1] and the simplex with b + 1 vertices.             *)
(***************************************************************************)
EXTENDS DoubleComplex

\* the chain as the set of its non-zero terms <<cell, simplex, coefficient>>
Terms(ch, p) ==
    LET keys == {<<ch[i][1], ch[i][2]>> : i \in 1 .. Len(ch)}
        val(k) == FoldLeft(LAMBDA acc, x : IF <<x[1], x[2]>> = k THEN (acc + (x[3] % p)) % p
                                            ELSE acc, 0, ch)
    IN  {y \in {<<k[1], k[2], val(k)>> : k \in keys} : y[3] # 0}
Scale(ch, q, p) == [i \in 1 .. Len(ch) |-> <<ch[i][1], ch[i][2], MulMod(q % p, ch[i][3] % p, p)>>]

AltSign(k) == IF k % 2 = 1 THEN 1 ELSE 0 - 1
CellAt(lo, s) == CHOOSE i \in 1 .. Len(lo) : lo[i].s = s
\* restriction to the faces of the nerve simplex: (a, b) -> (a - 1, b)
CechD(ch, up, lo) ==
    FlattenSeq([i \in 1 .. Len(ch) |->
        [k \in 1 .. Len(up[ch[i][1]].s) |->
            <<CellAt(lo, Face(up[ch[i][1]].s, k)), ch[i][2], AltSign(k) * ch[i][3]>>]])
\* boundary within every cell: (a, b) -> (a, b - 1)
VertD(ch) ==
    FlattenSeq([i \in 1 .. Len(ch) |->
        IF Len(ch[i][2]) = 1 THEN <<>>
        ELSE [k \in 1 .. Len(ch[i][2]) |-> <<ch[i][1], Face(ch[i][2], k), AltSign(k) * ch[i][3]>>]])

DiamOf(w, s) == Diam(w, Verts(s))
=============================================================================
