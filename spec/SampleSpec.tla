------------------------------ MODULE SampleSpec ------------------------------
(* Vocabulary of sampling: integer points, squared distances.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Sq(x) == x * x
RECURSIVE SqDistTo(_, _, _)
SqDistTo(u, v, k) == IF k = 0 THEN 0 ELSE Sq(u[k] - v[k]) + SqDistTo(u, v, k - 1)
SqDist(u, v) == SqDistTo(u, v, Len(u))
\* distance of x from the first k points of S
Gap(x, S, k) == Min({SqDist(x, S[i]) : i \in 1 .. k})
\* how far a point of P can be from the first k points of S
Reach(P, S, k) == Max({Gap(P[j], S, k) : j \in 1 .. Len(P)})
Count(x, P) == Cardinality({j \in 1 .. Len(P) : P[j] = x})
IsPart(S, P) == \A i \in 1 .. Len(S) : Count(S[i], S) <= Count(S[i], P)
Farthest(S, P) == \A i \in 2 .. Len(S) : Gap(S[i], S, i - 1) = Reach(P, S, i - 1)
=============================================================================
