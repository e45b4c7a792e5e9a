-------------------------------- MODULE Cover --------------------------------
(***************************************************************************)
(* Construction of the cubical cover as a state machine: an odometer runs  *)
(* over the boxes and fills the regions; a second one runs, for every box, *)
(* over the lexicographically earlier neighbours and collects the edges of *)
(* the nerve.  Explored for every cloud of at most K points of a small     *)
(* lattice, every number of divisions and every overlap.  The invariants   *)
(* are the guarantees users rely on: every box is visited once and in      *)
(* order, every point is covered, every set of points of diameter below    *)
(* the overlap lies in one region, edges are exactly the touching pairs.   *)
(***************************************************************************)
EXTENDS CoverSpec, Export
CONSTANTS Dim, Side, K, MaxDiv, Overlaps
VARIABLES X, m, w, dv, pos, i, reg, step, edges, pc
vars == <<X, m, w, dv, pos, i, reg, step, edges, pc>>

Pts == [1 .. Dim -> 0 .. Side]
Div == dv
Zero == [k \in 1 .. Dim |-> 0]
Low  == [k \in 1 .. Dim |-> -1]

Init ==
    /\ \E S \in UNION {kSubset(k, Pts) : k \in 1 .. K} : X = SetToSeq(S)
    /\ m \in 1 .. MaxDiv /\ w \in Overlaps
    /\ dv = DivOf(X, m) /\ pos = Zero /\ i = 0 /\ reg = <<>> /\ step = Low /\ edges = {}
    /\ pc = "fill"

Fill ==
    /\ pc = "fill" /\ i < Boxes(Div)
    /\ reg' = Append(reg, {j \in 1 .. Len(X) : Where(X[j], pos, X, m, w) >= 0})
    /\ pos' = NextPos(pos, Div) /\ i' = i + 1
    /\ UNCHANGED <<X, m, w, dv, step, edges, pc>>
ToNerve ==
    /\ pc = "fill" /\ i = Boxes(Div)
    /\ pc' = "nerve" /\ i' = 0 /\ pos' = Zero
    /\ UNCHANGED <<X, m, w, dv, reg, step, edges>>

\* the step to a neighbour: an odometer with digits -1, 0, 1; half of the
\* neighbours suffice: steps before <<0, .., 0>>
NextStep(s) == LET up == {k \in 1 .. Dim : s[k] < 1}
                   q  == Max(up)
               IN  [k \in 1 .. Dim |-> IF k = q THEN s[k] + 1
                                       ELSE IF k > q THEN -1 ELSE s[k]]
Look ==
    /\ pc = "nerve" /\ i < Boxes(Div) /\ \E k \in 1 .. Dim : step[k] < 0
    /\ LET q == [k \in 1 .. Dim |-> pos[k] + step[k]]
       IN  edges' = IF \A k \in 1 .. Dim : q[k] \in 0 .. (Div[k] - 1)
                    THEN edges \cup {{Encode(q, Div), i}} ELSE edges
    /\ step' = NextStep(step)
    /\ UNCHANGED <<X, m, w, dv, pos, i, reg, pc>>
NextBox ==
    /\ pc = "nerve" /\ i < Boxes(Div) /\ \A k \in 1 .. Dim : step[k] >= 0
    /\ i' = i + 1 /\ pos' = NextPos(pos, Div) /\ step' = Low
    /\ UNCHANGED <<X, m, w, dv, reg, edges, pc>>
Finish ==
    /\ pc = "nerve" /\ i = Boxes(Div) /\ pc' = "done"
    /\ Out([X |-> X, m |-> m, w |-> w, div |-> Div])
    /\ UNCHANGED <<X, m, w, dv, pos, i, reg, step, edges>>
Next == Fill \/ ToNerve \/ Look \/ NextBox \/ Finish
Spec == Init /\ [][Next]_vars

Odometer == i < Boxes(Div) => pos = Decode(i, Div) /\ Encode(pos, Div) = i
Tiles == pc = "done" => dv = DivOf(X, m) /\ \A k \in 1 .. Dim : LET L == Longest(X) IN
             L > 0 => L * Div[k] >= m * (MaxC(X, k) - MinC(X, k))
Filled == pc = "done" =>
    /\ Len(reg) = Boxes(Div)
    /\ \A S \in SUBSET (1 .. Len(X)) :
         (S # {} /\ \A a, b \in S : SupDist(X[a], X[b]) < w)
             => \E r \in 1 .. Len(reg) : S \subseteq reg[r]
\* a point of two regions lies in touching boxes or the boxes between them
\* contain it as well: the regions of a point form a box of the grid
Convex == pc = "done" =>
    \A j \in 1 .. Len(X) : \A a, b, c \in 1 .. Len(reg) :
        LET pa == Decode(a - 1, Div) pb == Decode(b - 1, Div) q == Decode(c - 1, Div)
        IN  (j \in reg[a] /\ j \in reg[b]
             /\ \A k \in 1 .. Dim : q[k] \in Min({pa[k], pb[k]}) .. Max({pa[k], pb[k]}))
            => j \in reg[c]
Nerve == pc = "done" =>
    edges = {e \in {{a, b} : a, b \in 0 .. (Boxes(Div) - 1)} : Cardinality(e) = 2 /\
               \A a, b \in e : Touch(Decode(a, Div), Decode(b, Div))}
            
=============================================================================
