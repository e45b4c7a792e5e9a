-------------------------------- MODULE Fp --------------------------------
(***************************************************************************)
(* The field Z/p and finite matrices over it.                              *)
(*                                                                         *)
(* A matrix is a sequence of ROWS; a vector is a sequence of integers.     *)
(* Every operator returns representatives in 0..p-1.  TLC's integers are   *)
(* 32 bit: MulMod switches to double-and-add when (p-1)^2 would not fit,   *)
(* so that every prime below 2^30 can be used.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

RECURSIVE MulSlow(_, _, _)
MulSlow(a, b, p) ==
    IF b = 0 THEN 0
    ELSE LET h == MulSlow((2 * a) % p, b \div 2, p)
         IN  IF b % 2 = 1 THEN (h + a) % p ELSE h

MulMod(a, b, p) ==
    IF p <= 46337 THEN ((a % p) * (b % p)) % p
                  ELSE MulSlow(a % p, b % p, p)

RECURSIVE PowMod(_, _, _)
PowMod(a, n, p) ==
    IF n = 0 THEN 1 % p
    ELSE LET h == PowMod(MulMod(a, a, p), n \div 2, p)
         IN  IF n % 2 = 1 THEN MulMod(h, a, p) ELSE h

\* Fermat: independent of the extended Euclid used by the implementation
Inv(a, p) == PowMod(a % p, p - 2, p)

RECURSIVE NoDivisor(_, _)
NoDivisor(n, d) == d * d > n \/ (n % d # 0 /\ NoDivisor(n, d + 1))
IsPrime(n) == n >= 2 /\ NoDivisor(n, 2)

------------------------------------------------------------------------
\* Vectors

ZeroVec(n)      == [i \in 1 .. n |-> 0]
UnitVec(n, k)   == [i \in 1 .. n |-> IF i = k THEN 1 ELSE 0]
VecMod(v, p)    == [i \in 1 .. Len(v) |-> v[i] % p]
VecAdd(u, v, p) == [i \in 1 .. Len(u) |-> ((u[i] % p) + (v[i] % p)) % p]
\* u + q v
VecAxpy(u, q, v, p) ==
    IF p <= 46337
    THEN [i \in 1 .. Len(u) |-> ((u[i] % p) + q * (v[i] % p)) % p]
    ELSE [i \in 1 .. Len(u) |-> ((u[i] % p) + MulMod(q, v[i], p)) % p]
VecScale(q, v, p) == [i \in 1 .. Len(v) |-> MulMod(q, v[i], p)]
IsZero(v, p)    == \A i \in 1 .. Len(v) : v[i] % p = 0
Dot(u, v, p) ==
    IF p <= 46337
    THEN FoldLeftDomain(LAMBDA acc, i :
            IF u[i] = 0 THEN acc
            ELSE (acc + (u[i] % p) * (v[i] % p)) % p, 0, u)
    ELSE FoldLeftDomain(LAMBDA acc, i : (acc + MulMod(u[i], v[i], p)) % p, 0, u)

\* index of the last entry that is non zero mod p, 0 when there is none
Pivot(v, p) ==
    LET nz == {i \in 1 .. Len(v) : v[i] % p # 0}
    IN  IF nz = {} THEN 0 ELSE Max(nz)

------------------------------------------------------------------------
\* Matrices (sequences of rows)

NRows(M)    == Len(M)
NCols(M)    == IF Len(M) = 0 THEN 0 ELSE Len(M[1])
ColOf(M, j) == [i \in 1 .. Len(M) |-> M[i][j]]
Cols(M)     == [j \in 1 .. NCols(M) |-> ColOf(M, j)]
ZeroMat(m, n) == [i \in 1 .. m |-> [j \in 1 .. n |-> 0]]
Ident(n)    == [i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN 1 ELSE 0]]
IsMatrix(M, m, n) == Len(M) = m /\ \A i \in 1 .. m : Len(M[i]) = n
Transpose(M) == Cols(M)
MatVec(M, v, p) == [i \in 1 .. Len(M) |-> Dot(M[i], v, p)]
\* combination of the columns C (of length m) with coefficients v
ColComb(C, v, m, p) ==
    FoldLeftDomain(LAMBDA acc, j :
        IF v[j] % p = 0 THEN acc ELSE VecAxpy(acc, v[j] % p, C[j], p), ZeroVec(m), v)
MatMul(A, B, p) ==
    LET C == Cols(B)
    IN  [i \in 1 .. Len(A) |-> [j \in 1 .. Len(C) |-> Dot(A[i], C[j], p)]]
MatEqMod(A, B, p) ==
    /\ Len(A) = Len(B)
    /\ \A i \in 1 .. Len(A) :
          /\ Len(A[i]) = Len(B[i])
          /\ \A j \in 1 .. Len(A[i]) : (A[i][j] - B[i][j]) % p = 0
VecEqMod(u, v, p) ==
    Len(u) = Len(v) /\ \A i \in 1 .. Len(u) : (u[i] - v[i]) % p = 0
Reduced(M, p) == \A i \in 1 .. Len(M) : \A j \in 1 .. Len(M[i]) :
                     M[i][j] \in 0 .. (p - 1)
RowsAt(M, I)  == [k \in 1 .. Len(I) |-> M[I[k]]]
ColsAt(M, J)  == [i \in 1 .. Len(M) |-> [k \in 1 .. Len(J) |-> M[i][J[k]]]]

------------------------------------------------------------------------
(* Rank of a sequence of vectors.  An echelon basis is a sequence of       *)
(* vectors normalised to have a 1 in their (pairwise distinct) pivots.     *)

\* reduce v by the echelon basis E (order of E is the order of insertion;
\* a later vector is already reduced by the earlier ones)
EchReduce(E, v, p) ==
    FoldLeft(LAMBDA w, e :
        LET c == w[e.piv] % p
        IN  IF c = 0 THEN w ELSE VecAxpy(w, (p - c) % p, e.vec, p), v, E)

FirstNZ(v, p) ==
    LET nz == {i \in 1 .. Len(v) : v[i] % p # 0}
    IN  IF nz = {} THEN 0 ELSE Min(nz)

EchInsert(E, v, p) ==
    LET w == EchReduce(E, v, p)
        k == FirstNZ(w, p)
    IN  IF k = 0 THEN E
        ELSE Append(E, [piv |-> k,
                        vec |-> VecScale(Inv(w[k], p), w, p)])

Echelon(vs, p)   == FoldLeft(LAMBDA E, v : EchInsert(E, v, p), <<>>, vs)
Rank(vs, p)      == Len(Echelon(vs, p))
InSpan(E, v, p)  == IsZero(EchReduce(E, v, p), p)
Independent(vs, p) == Rank(vs, p) = Len(vs)
=============================================================================
