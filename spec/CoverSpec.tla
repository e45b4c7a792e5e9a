------------------------------ MODULE CoverSpec ------------------------------
(***************************************************************************)
(* Cubical covers: boxes of a grid, their enumeration, their nerve, and    *)
(* membership of points.  A grid is given by div (boxes per coordinate);   *)
(* boxes are positions <<c1, .., cd>>, numbered lexicographically from 0.   *)
(* Coordinates are integers; with m divisions of the longest side L, the   *)
(* box at c enlarged by half the overlap w is, multiplied by 2 m,           *)
(*   2 m min + 2 L c - m w  <=  2 m x  <=  2 m min + 2 L (c + 1) + m w     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Boxes(div) == FoldLeft(LAMBDA acc, x : acc * x, 1, div)

\* number of boxes in the coordinates after k
After(div, k) == FoldLeft(LAMBDA acc, x : acc * x, 1,
                          SubSeq(div, k + 1, Len(div)))
Decode(i, div) == [k \in 1 .. Len(div) |-> (i \div After(div, k)) % div[k]]
Encode(pos, div) ==
    FoldLeft(LAMBDA acc, k : acc * div[k] + pos[k], 0,
             [k \in 1 .. Len(div) |-> k])

\* the next position of the odometer; the last one is kept
NextPos(pos, div) ==
    LET up == {k \in 1 .. Len(div) : pos[k] < div[k] - 1}
    IN  IF up = {} THEN pos
        ELSE LET m == Max(up)
             IN  [k \in 1 .. Len(div) |->
                    IF k = m THEN pos[k] + 1 ELSE IF k > m THEN 0 ELSE pos[k]]

Dif(a, b) == IF a < b THEN b - a ELSE a - b
Touch(p, q) == \A k \in 1 .. Len(p) : Dif(p[k], q[k]) <= 1

\* all sets of k mutually touching boxes, k = 1, 2, .. (by growth)
RECURSIVE GrowNerve(_, _, _)
GrowNerve(lev, nb, k) ==
    IF k = 1 THEN lev
    ELSE LET last == lev[Len(lev)]
             more == UNION {{{v} \cup s : v \in {u \in DOMAIN nb :
                                \A x \in s : u < x /\ u \in nb[x]}} : s \in last}
         IN  IF more = {} THEN lev ELSE GrowNerve(Append(lev, more), nb, k - 1)

NerveLevels(div) ==
    LET n  == Boxes(div)
        ps == TLCEval([i \in 0 .. (n - 1) |-> Decode(i, div)])
        nb == TLCEval([i \in 0 .. (n - 1) |->
                 {j \in 0 .. (n - 1) : j # i /\ Touch(ps[i], ps[j])}])
    IN  GrowNerve(<<{{i} : i \in 0 .. (n - 1)}>>, nb, 100)

\* ------------------------------------------------------------------ points
\* X: sequence of points (integer coordinates)
MinC(X, k) == Min({X[i][k] : i \in 1 .. Len(X)})
MaxC(X, k) == Max({X[i][k] : i \in 1 .. Len(X)})
DimOf(X)   == Len(X[1])
Longest(X) == Max({MaxC(X, k) - MinC(X, k) : k \in 1 .. DimOf(X)})

\* boxes per coordinate: ceiling of extent / (L / m); one for a flat side
CeilDiv(a, b) == (a + b - 1) \div b
Div1(e, m, L) == IF e = 0 THEN 1 ELSE CeilDiv(e * m, L)
DivOf(X, m) == [k \in 1 .. DimOf(X) |-> Div1(MaxC(X, k) - MinC(X, k), m, Longest(X))]

\* sign of membership along coordinate k: 1 inside, 0 on a face, -1 outside
Inside(x, c, k, X, m, w, L) ==
    LET y  == 2 * m * (x[k] - MinC(X, k))
        lo == 2 * L * c[k] - m * w
        hi == 2 * L * (c[k] + 1) + m * w
    IN  IF y < lo \/ y > hi THEN -1 ELSE IF y = lo \/ y = hi THEN 0 ELSE 1
Where(x, c, X, m, w) ==
    LET L == Longest(X)
        s == {Inside(x, c, k, X, m, w, L) : k \in 1 .. DimOf(X)}
    IN  Min(s)

\* diameter in the maximum norm
SupDist(x, y) == Max({Dif(x[k], y[k]) : k \in 1 .. Len(x)})
=============================================================================
