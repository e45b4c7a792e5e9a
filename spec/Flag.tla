--------------------------------- MODULE Flag ---------------------------------
(***************************************************************************)
(* Flag complex of a graph, built dimension by dimension: every simplex is *)
(* extended by the vertices that are lower than, and adjacent to, all of   *)
(* its vertices.  TLC explores every graph on NV vertices and every order  *)
(* in which the simplices of one dimension are extended is irrelevant (the *)
(* level is a set); each exported graph is replayed into the code.         *)
(***************************************************************************)
EXTENDS Simplicial, Export
CONSTANTS NV, MaxDim
VARIABLES G, C, pc
vars == <<G, C, pc>>

V == 0 .. (NV - 1)
Edges == {q \in V \X V : q[1] < q[2]}
Adj(a, b) == <<a, b>> \in G

Init == G \in SUBSET Edges /\ C = <<G>> /\ pc = "build"

Low(s) == {v \in V : \A i \in 1 .. Len(s) : v < s[i] /\ Adj(v, s[i])}
Extend ==
    /\ pc = "build" /\ Len(C) < MaxDim
    /\ C' = Append(C, UNION {{<<v>> \o s : v \in Low(s)} : s \in C[Len(C)]})
    /\ UNCHANGED <<G, pc>>
Finish ==
    /\ pc = "build" /\ Len(C) = MaxDim /\ pc' = "done"
    /\ Out([n |-> NV, edges |-> SetToSeq(G), maxdim |-> MaxDim,
            sizes |-> [k \in 1 .. MaxDim |-> Cardinality(C[k])]])
    /\ UNCHANGED <<G, C>>
Next == Extend \/ Finish
Spec == Init /\ [][Next]_vars

\* every level is the set of all cliques, written increasingly, each once
Levels == \A k \in 1 .. Len(C) :
    /\ \A s \in C[k] : Increasing(s)
    /\ {Verts(s) : s \in C[k]} = DefCliques(NV, k + 1, LAMBDA a, b : Adj(a, b))
    /\ {Verts(s) : s \in C[k]} = Cliques(NV, k + 1, LAMBDA a, b : Adj(a, b))
    /\ Cardinality({Verts(s) : s \in C[k]}) = Cardinality(C[k])
\* closed under faces; and the boundary squares to zero
Closed == \A k \in 2 .. Len(C) : \A s \in C[k] : \A i \in 1 .. Len(s) :
              Face(s, i) \in C[k - 1]
Square == pc = "done" => \A k \in 2 .. Len(C) : \A s \in C[k] :
    LET lower == IF k = 2 THEN [i \in 1 .. NV |-> <<i - 1>>] ELSE SetToSeq(C[k - 2])
        mid == SetToSeq(C[k - 1])
    IN  \A i \in 1 .. Len(lower) :
          FoldLeft(LAMBDA acc, m : acc + Coef(s, m) * Coef(m, lower[i]), 0, mid) = 0
=============================================================================
