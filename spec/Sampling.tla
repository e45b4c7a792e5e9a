------------------------------- MODULE Sampling -------------------------------
(***************************************************************************)
(* Sampling by farthest points: start anywhere, then repeatedly take one   *)
(* of the points of the cloud that is farthest from those taken (the       *)
(* distances to the sample are maintained incrementally).  Explored for    *)
(* every cloud of a small lattice, with repeated points.  Guarantees: the   *)
(* sample is a part of the cloud, gaps never increase, the sample is spread *)
(* (pairwise at least the last gap apart) and covers the cloud within      *)
(* twice the best possible radius; asking for more points than there are   *)
(* takes the whole cloud.                                                  *)
(***************************************************************************)
EXTENDS SampleSpec, Export
CONSTANTS Side, Dim, N, Ask
VARIABLES P, k, taken, near, gaps
vars == <<P, k, taken, near, gaps>>

Pts == [1 .. Dim -> 0 .. Side]
Enc(x) == IF Dim = 1 THEN x[1] ELSE x[1] * (Side + 1) + x[2]
Rest == (1 .. Len(P)) \ Range(taken)
Want == IF k < Len(P) THEN k ELSE Len(P)

Init == /\ \E n \in 1 .. N : P \in {q \in [1 .. n -> Pts] :
                \A i \in 1 .. (n - 1) : Enc(q[i]) <= Enc(q[i + 1])}
        /\ k \in 1 .. Ask
        /\ taken = <<>> /\ gaps = <<>> /\ near = [j \in 1 .. Len(P) |-> -1]
Take(j) ==
    /\ taken' = Append(taken, j)
    /\ near' = [i \in 1 .. Len(P) |->
                  LET d == SqDist(P[i], P[j])
                  IN  IF near[i] = -1 \/ d < near[i] THEN d ELSE near[i]]
    /\ UNCHANGED <<P, k>>
Start == /\ taken = <<>> /\ gaps' = <<>> /\ \E j \in 1 .. Len(P) : Take(j)
Grow  == /\ taken # <<>> /\ Len(taken) < Want
         /\ \E j \in Rest :
              /\ near[j] = Max({near[i] : i \in Rest})
              /\ Take(j) /\ gaps' = Append(gaps, near[j])
Finish == /\ Len(taken) = Want
          /\ Out([P |-> P, k |-> k])
          /\ UNCHANGED vars
Next == Start \/ Grow \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Grow)

S == [i \in 1 .. Len(taken) |-> P[taken[i]]]
Incremental == taken # <<>> => \A j \in 1 .. Len(P) : near[j] = Gap(P[j], S, Len(S))
PartOfCloud == IsPart(S, P) /\ Cardinality(Range(taken)) = Len(taken)
Greedy      == Farthest(S, P)
Decreasing  == \A i \in 1 .. (Len(gaps) - 1) : gaps[i] >= gaps[i + 1]
Spread      == \A i, j \in 1 .. Len(S) : i < j => SqDist(S[i], S[j]) >= gaps[Len(gaps)]
\* covering radius at most twice the optimum for as many points of the cloud
TwoOptimal  == taken # <<>> =>
    \A C \in kSubset(Len(taken), 1 .. Len(P)) :
        Max({near[j] : j \in 1 .. Len(P)})
            <= 4 * Max({Min({SqDist(P[j], P[c]) : c \in C}) : j \in 1 .. Len(P)})
Ends        == <>(Len(taken) = Want)
=============================================================================
