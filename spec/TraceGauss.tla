------------------------------ MODULE TraceGauss ------------------------------
(* Verdicts on recorded calls of the linear algebra layer.                    *)
EXTENDS GaussSpec, TraceRun, BigNat


RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

JArith(e) ==
    CASE e.op = "add" ->
            IF e.exc # "" THEN "add-raised"
            ELSE IF e.s = ((e.a % e.p) + (e.b % e.p)) % e.p THEN "ok" ELSE "add-wrong"
    []   e.op = "addarr" ->
            IF e.exc # "" THEN "addarr-raised"
            ELSE IF e.S = [i \in 1 .. Len(e.A) |-> VecAdd(e.A[i], e.B[i], e.p)]
                 THEN "ok" ELSE "addarr-wrong"
    []   e.op = "inv" ->
            IF Gcd(e.p, e.a % e.p) # 1
            THEN IF e.exc = "ValueError" THEN "ok" ELSE "inv-of-noninvertible"
            ELSE IF e.exc # "" THEN
                    (IF IsPrime(e.p) THEN "inv-rejects-invertible" ELSE "ok")
            ELSE IF e.x \notin 0 .. (e.p - 1) THEN "inv-not-reduced"
            ELSE IF MulMod(e.a, e.x, e.p) = 1 % e.p THEN "ok" ELSE "inv-wrong"
    []   e.op = "mul" ->
            IF e.exc # "" THEN "mul-raised"
            ELSE IF e.X = [i \in 1 .. e.m |-> [j \in 1 .. e.n |->
                              Dot(e.A[i], e.BT[j], e.p)]]
                 THEN "ok" ELSE "mul-wrong"
    []   e.op = "pivot" ->
            IF e.exc # "" THEN "pivot-raised"
            ELSE IF e.x + 1 = (LET nz == {i \in 1 .. Len(e.v) : e.v[i] # 0}
                               IN IF nz = {} THEN 0 ELSE Max(nz))
                 THEN "ok" ELSE "pivot-wrong"
    []   OTHER -> "unknown-op"

\* sums of products with their residues and quotients
JBig(e) ==
    IF e.exc # "" THEN "big-" \o e.what \o "-raised"
    ELSE IF ~ e.inrange THEN "big-" \o e.what \o "-not-reduced"
    ELSE IF \A i \in 1 .. Len(e.eqs) :
               LET q == e.eqs[i]
               IN  q.neg = 0 /\ IsResidue([j \in 1 .. Len(q.t) |-> SMul(q.t[j][1], q.t[j][2])],
                                         q.x, q.k, e.p)
         THEN "ok" ELSE "big-" \o e.what \o "-wrong"

JudgeGauss(e) ==
    IF e.exc \in {"Malformed", "Timeout"} THEN "call-" \o e.exc
    ELSE IF e.op = "big" THEN JBig(e)
    ELSE IF e.op \in {"add", "addarr", "inv", "mul", "pivot"} THEN JArith(e)
    ELSE IF ~ e.pure THEN "arguments-modified"
    ELSE CASE e.op = "gauss" ->
                 IF e.exc # "" THEN "gauss-raised"
                 ELSE GaussVerdict(e.A, e.m, e.n, e.R, e.T, e.p)
         []   e.op = "solve"  -> SolveVerdict(e.A, e.m, e.n, e.b, e.x, e.exc, e.p)
         []   e.op = "solvem" -> SolveMatVerdict(e.A, e.m, e.n, e.B, e.X, e.exc, e.p)
         []   e.op = "rad"    -> RadVerdict(e.A, e.m, e.n, e.rad, e.s, e.R, e.T, e.exc, e.p)
         []   e.op = "bars"   -> BarVerdict(e.A, e.m, e.n, e.rb, e.cb, e.s, e.C, e.exc, e.p)
         []   OTHER -> "unknown-op"

=============================================================================
