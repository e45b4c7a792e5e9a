-------------------------------- MODULE Euclid --------------------------------
(* Design of the modular inverse: extended Euclid, one division per step.     *)
(* Explored for every residue (also negative and unreduced representatives)   *)
(* of every modulus in Moduli.                                                *)
EXTENDS Fp, Export
CONSTANTS Moduli, Span
VARIABLES a0, p, a, b, x0, x1, pc
vars == <<a0, p, a, b, x0, x1, pc>>

Init == /\ p \in Moduli
        /\ a0 \in (0 - Span * p) .. (Span * p)
        /\ a = a0 % p /\ b = p /\ x0 = 0 /\ x1 = 1
        /\ pc = "start"

RejectZero == /\ pc = "start" /\ a = 0
              /\ pc' = "rejected"
              /\ Out([a |-> a0, p |-> p, ok |-> FALSE, x |-> 0])
              /\ UNCHANGED <<a0, p, a, b, x0, x1>>
Start      == /\ pc = "start" /\ a # 0 /\ pc' = "run"
              /\ UNCHANGED <<a0, p, a, b, x0, x1>>
Divide     == /\ pc = "run" /\ a # 0
              /\ LET q == b \div a IN
                 /\ b' = a /\ a' = b % a
                 /\ x0' = x1 /\ x1' = x0 - q * x1
              /\ UNCHANGED <<a0, p, pc>>
Finish     == /\ pc = "run" /\ a = 0
              /\ IF b # 1 THEN pc' = "rejected" /\ x0' = x0
                          ELSE pc' = "done" /\ x0' = x0 % p
              /\ Out([a |-> a0, p |-> p, ok |-> (b = 1), x |-> x0'])
              /\ UNCHANGED <<a0, p, a, b, x1>>
Next == RejectZero \/ Start \/ Divide \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bezout  == pc # "done" => (x0 * a0 - b) % p = 0
Correct == /\ pc = "done" => x0 \in 0 .. (p - 1) /\ (x0 * a0) % p = 1 % p
           /\ pc = "done" /\ IsPrime(p) => x0 = Inv(a0, p)
           /\ pc = "rejected" /\ IsPrime(p) => a0 % p = 0
Terminates == <>(pc \in {"done", "rejected"})
=============================================================================
