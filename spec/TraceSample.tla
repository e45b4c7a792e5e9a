----------------------------- MODULE TraceSample -----------------------------
(* Verdicts on recorded samples and examples.  Coordinates of examples are   *)
(* given in units of 1/K of the stated size (e.K), rounded.                  *)
(*  sample: e.P cloud, e.k request, e.S sample (integer coordinates),        *)
(*          e.again: the sample for the same seed once more                  *)
(*  others: e.n, e.dim requested, e.pts points, and what describes the set,  *)
(*          e.distinct: no exact repetition among the points                 *)
EXTENDS SampleSpec, TraceRun

Shape(e) == Len(e.pts) = e.n /\ \A i \in 1 .. Len(e.pts) : Len(e.pts[i]) = e.dim
RECURSIVE NormTo(_, _)
NormTo(x, k) == IF k = 0 THEN 0 ELSE Sq(x[k]) + NormTo(x, k - 1)
Norm(x) == NormTo(x, Len(x))
Close(a, b, t) == a - b <= t /\ b - a <= t
All(e, ok(_)) == \A i \in 1 .. Len(e.pts) : ok(e.pts[i])
Distinct(e) == Cardinality(Range(e.pts)) = Len(e.pts)

JSample(e) ==
    LET want == IF e.k < Len(e.P) THEN e.k ELSE Len(e.P)
    IN  CASE Len(e.S) # want -> "wrong-number-of-samples"
        []   ~IsPart(e.S, e.P) -> "sample-not-part-of-cloud"
        []   ~Farthest(e.S, e.P) -> "not-a-farthest-point"
        []   e.again # e.S -> "seed-does-not-determine-sample"
        []   OTHER -> "ok"

\* a regular polygon on the circle: equal steps, no repetition
JCircle(e) ==
    LET n == Len(e.pts)
        step(i) == SqDist(e.pts[i], e.pts[(i % n) + 1])
    IN  CASE ~Shape(e) -> "wrong-shape"
        []   ~All(e, LAMBDA x : Close(Norm(x), Sq(e.K), 4 * e.K)) -> "not-on-the-circle"
        []   ~Distinct(e) -> "repeated-point"
        []   n >= 3 /\ \E i \in 1 .. n : ~Close(step(i), step(1), 16 * e.K) -> "not-equally-spaced"
        []   OTHER -> "ok"
\* between the circle and the circle enlarged by the noise (e.eps in 1/K)
JNoisy(e) ==
    CASE ~Shape(e) -> "wrong-shape"
    []   ~All(e, LAMBDA x : Norm(x) >= Sq(e.K) - 4 * e.K /\ Norm(x) <= Sq(e.K + e.eps + 2))
             -> "not-around-the-circle"
    []   e.eps = 0 /\ ~All(e, LAMBDA x : Close(Norm(x), Sq(e.K), 4 * e.K)) -> "not-on-the-circle"
    []   ~e.distinct -> "repeated-point"
    []   e.again # e.pts -> "seed-does-not-determine-points"
    []   OTHER -> "ok"
JBall(e) ==
    CASE ~Shape(e) -> "wrong-shape"
    []   ~All(e, LAMBDA x : Norm(x) <= Sq(e.K) + 4 * e.K) -> "outside-the-ball"
    []   e.dim > 0 /\ ~e.distinct -> "repeated-point"
    []   OTHER -> "ok"
JSphere(e) ==
    CASE ~Shape(e) -> "wrong-shape"
    []   ~All(e, LAMBDA x : Close(Norm(x), Sq(e.K), 4 * e.K)) -> "not-on-the-sphere"
    []   e.dim > 1 /\ ~e.distinct -> "repeated-point"
    []   OTHER -> "ok"
JCube(e) ==
    CASE ~Shape(e) -> "wrong-shape"
    []   ~All(e, LAMBDA x : \A k \in 1 .. e.dim : 2 * x[k] \in (-e.K) .. e.K) -> "outside-the-cube"
    []   e.dim > 0 /\ ~e.distinct -> "repeated-point"
    []   OTHER -> "ok"
\* integer grid centred at the origin; coordinates are doubled
JGrid(e) ==
    LET num == FoldFunction(LAMBDA a, b : a * b, 1, e.div)
    IN  CASE ~Shape(e) -> "wrong-shape"
        []   Len(e.pts) # num \/ ~Distinct(e) -> "wrong-number-of-grid-points"
        []   \E i \in 1 .. Len(e.pts) : \E k \in 1 .. Len(e.div) :
                \/ e.pts[i][k] > e.div[k] - 1 \/ e.pts[i][k] < 1 - e.div[k]
                \/ (e.pts[i][k] + e.div[k] - 1) % 2 # 0 -> "not-the-centred-grid"
        []   OTHER -> "ok"
\* e.rho[i]: distance of point i from the axis (checked), e.R >= e.r radii
JTorus(e) ==
    IF e.raised # "" THEN (IF e.bad THEN "ok" ELSE "refused-valid-radii")
    ELSE CASE e.bad -> "accepted-invalid-radii"
         []   ~Shape(e) \/ Len(e.rho) # Len(e.pts) -> "wrong-shape"
         []   \E i \in 1 .. Len(e.pts) :
                ~Close(Sq(e.rho[i]), Sq(e.pts[i][1]) + Sq(e.pts[i][2]), 4 * e.rho[i] + 4)
                -> "not-a-distance"
         []   \E i \in 1 .. Len(e.pts) :
                ~Close(Sq(e.rho[i] - e.R) + Sq(e.pts[i][3]), Sq(e.r), 8 * e.r + 8)
                -> "not-on-the-torus"
         []   ~e.distinct -> "repeated-point"
         []   OTHER -> "ok"

JudgeSample(e) ==
    IF e.exc # "" THEN "call-" \o e.exc
    ELSE CASE e.op = "sample" -> JSample(e)
         []   e.op = "circle" -> JCircle(e)
         []   e.op = "noisy" -> JNoisy(e)
         []   e.op = "ball" -> JBall(e)
         []   e.op = "sphere" -> JSphere(e)
         []   e.op = "cube" -> JCube(e)
         []   e.op = "grid" -> JGrid(e)
         []   e.op = "torus" -> JTorus(e)
         []   OTHER -> "unknown-op"
=============================================================================
