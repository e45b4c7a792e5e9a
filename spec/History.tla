------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* Histories of computations.  A computation is started with arguments and *)
(* a prime, proceeds in stages, and ends with a result.  Computations may  *)
(* be interleaved at stages, repeated, and run one after another; arguments *)
(* and results live in a shared store.  The guarantee: a result is a        *)
(* function of the arguments of its own computation, nothing in the store   *)
(* changes except by a computation adding its own result.  The variable    *)
(* last stands for state shared by all computations (the prime the last    *)
(* started computation uses): the machine shows that results agree with    *)
(* running alone because no stage reads it.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Export
CONSTANTS NStages, Primes
VARIABLES prime, at, acc, last, store, sched
vars == <<prime, at, acc, last, store, sched>>

S == {0, 1}                       \* two computations
Arg(s) == 5 + 4 * s
Stage(k, x, p) == (3 * x + k + 1) % p
RECURSIVE Alone(_, _, _)
Alone(k, x, p) == IF k = NStages THEN x ELSE Alone(k + 1, Stage(k, x, p), p)

Init == /\ prime \in [S -> Primes]
        /\ at = [s \in S |-> -1] /\ acc = [s \in S |-> 0]
        /\ last = 0 /\ sched = <<>>
        /\ store = [s \in S |-> [arg |-> Arg(s), res |-> -1]]
Start(s) == /\ at[s] = -1
            /\ at' = [at EXCEPT ![s] = 0]
            /\ acc' = [acc EXCEPT ![s] = store[s].arg % prime[s]]
            /\ last' = prime[s]
            /\ UNCHANGED <<prime, store, sched>>
Step(s)  == /\ at[s] \in 0 .. (NStages - 1)
            /\ acc' = [acc EXCEPT ![s] = Stage(at[s], acc[s], prime[s])]
            /\ at' = [at EXCEPT ![s] = @ + 1]
            /\ sched' = Append(sched, s)
            /\ UNCHANGED <<prime, last, store>>
End(s)   == /\ at[s] = NStages
            /\ store' = [store EXCEPT ![s].res = acc[s]]
            /\ at' = [at EXCEPT ![s] = NStages + 1]
            /\ (at[1 - s] = NStages + 1 => Out([sched |-> sched, pa |-> prime[0], pb |-> prime[1]]))
            /\ UNCHANGED <<prime, acc, last, sched>>
Next == \E s \in S : Start(s) \/ Step(s) \/ End(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OwnResult == \A s \in S : store[s].res # -1 =>
                 store[s].res = Alone(0, Arg(s) % prime[s], prime[s])
ArgsKept  == \A s \in S : store[s].arg = Arg(s)
Stable    == [][\A s \in S : store[s].res # -1 => store'[s] = store[s]]_vars
Ends      == <>(\A s \in S : store[s].res # -1)
=============================================================================
