------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's 32 bits: sequences of limbs in base 2^14,  *)
(* least significant first.  Used to decide arithmetic modulo primes of    *)
(* any size from certificates (quotients) recorded with the operation.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Base == 16384

IsBig(a) == \A i \in 1 .. Len(a) : a[i] \in 0 .. (Base - 1)
Limb(a, i) == IF i \in 1 .. Len(a) THEN a[i] ELSE 0
BMax(m, n) == IF m >= n THEN m ELSE n
BMin(m, n) == IF m <= n THEN m ELSE n

\* carry propagation of a sequence of non negative limbs below 2^30
Norm(a) ==
    LET s == FoldLeft(LAMBDA acc, x :
                 LET t == x + acc.c
                 IN  [c |-> t \div Base, v |-> Append(acc.v, t % Base)],
                 [c |-> 0, v |-> <<>>], a)
    IN  Append(Append(s.v, s.c % Base), s.c \div Base)

BAdd(a, b) == Norm([i \in 1 .. BMax(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)])

\* a * d * Base^k for one limb d
Shifted(a, d, k) == Norm([i \in 1 .. (Len(a) + k) |->
                             IF i <= k THEN 0 ELSE d * a[i - k]])
BMul(a, b) == FoldLeftDomain(LAMBDA acc, j :
                  IF b[j] = 0 THEN acc ELSE BAdd(acc, Shifted(a, b[j], j - 1)),
                  <<0>>, b)

BEq(a, b) == \A i \in 1 .. BMax(Len(a), Len(b)) : Limb(a, i) = Limb(b, i)
BLess(a, b) ==
    \E i \in 1 .. BMax(Len(a), Len(b)) :
        /\ Limb(a, i) < Limb(b, i)
        /\ \A j \in (i + 1) .. BMax(Len(a), Len(b)) : Limb(a, j) = Limb(b, j)
BSum(s) == FoldLeft(LAMBDA acc, x : BAdd(acc, x), <<0>>, s)

(* Signed numbers [n |-> negative?, v |-> magnitude].  pos + k p = neg + x,  *)
(* with k signed, certifies x = pos - neg modulo p.                          *)
Side(terms, neg) == BSum([i \in 1 .. Len(terms) |->
                            IF (terms[i].n = 1) = neg THEN terms[i].v ELSE <<0>>])
SMul(a, b) == [n |-> IF a.n = b.n THEN 0 ELSE 1, v |-> BMul(a.v, b.v)]

\* the sum of the signed terms is x + k p, and 0 <= x < p
IsResidue(terms, x, k, p) ==
    LET kp == SMul(k, [n |-> 0, v |-> p])
        l  == BAdd(Side(terms, FALSE), IF kp.n = 1 THEN kp.v ELSE <<0>>)
        r  == BAdd(BAdd(Side(terms, TRUE), IF kp.n = 1 THEN <<0>> ELSE kp.v), x)
    IN  BLess(x, p) /\ BEq(l, r)
=============================================================================
