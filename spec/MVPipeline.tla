------------------------------ MODULE MVPipeline ------------------------------
(***************************************************************************)
(* The parallel stages of the Mayer-Vietoris pipeline.  A stage submits    *)
(* Tasks local tasks to a pool; idle workers take submitted tasks in any   *)
(* order, run them on a private copy of the inputs frozen at submission,   *)
(* and may leave traces in their private memory; results come back in any  *)
(* order and are stored at the index of their task.  When all results are  *)
(* in, the stage combines them by index and the next stage starts from the *)
(* combination.  TLC explores every interleaving; the final value must not *)
(* depend on it, nor on the number of workers, and no two behaviours may   *)
(* differ in any stage result.  Schedules of a stage (which task ran where *)
(* and in which order they finished) are exported and replayed.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Export
CONSTANTS Stages, MaxTasks, MaxWorkers
VARIABLES n, nw, stage, input, taken, running, mem, res, log
vars == <<n, nw, stage, input, taken, running, mem, res, log>>

W == 1 .. nw
T == 1 .. n
None == -1
\* a task computes an arbitrary function of the frozen input and its index
F(inp, t) == (inp * 7 + t * t + 3) % 11
Combine(r) == LET RECURSIVE go(_, _)
                  go(k, acc) == IF k > n THEN acc ELSE go(k + 1, (acc * 5 + r[k]) % 13)
              IN  go(1, 1)
RECURSIVE Serial(_, _)
Serial(k, inp) == IF k = 0 THEN inp
                  ELSE Serial(k - 1, Combine([t \in T |-> F(inp, t)]))

Init == /\ n \in 1 .. MaxTasks /\ nw \in 1 .. MaxWorkers
        /\ stage = 1 /\ input = 2 /\ taken = {}
        /\ running = [w \in 1 .. nw |-> None]
        /\ mem = [w \in 1 .. nw |-> 0]
        /\ res = [t \in 1 .. n |-> None] /\ log = <<>>

Take(w, t) ==
    /\ stage <= Stages /\ running[w] = None /\ t \notin taken
    /\ running' = [running EXCEPT ![w] = t] /\ taken' = taken \cup {t}
    /\ UNCHANGED <<n, nw, stage, input, mem, res, log>>
Complete(w) ==
    /\ running[w] # None
    /\ res' = [res EXCEPT ![running[w]] = F(input, running[w])]
    /\ mem' = [mem EXCEPT ![w] = running[w]]
    /\ log' = Append(log, <<running[w] - 1, w>>)
    /\ running' = [running EXCEPT ![w] = None]
    /\ UNCHANGED <<n, nw, stage, input, taken>>
Collect ==
    /\ stage <= Stages /\ \A t \in T : res[t] # None
    /\ Out([n |-> n, w |-> nw, log |-> log])
    /\ input' = Combine(res) /\ stage' = stage + 1
    /\ taken' = {} /\ res' = [t \in T |-> None]
    /\ mem' = [w \in W |-> 0] /\ log' = <<>>       \* a new pool per stage
    /\ UNCHANGED <<n, nw, running>>
Next == (\E w \in W : Complete(w) \/ \E t \in T : Take(w, t)) \/ Collect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Deterministic == input = Serial(stage - 1, 2)
OncePerTask == \A t \in T : Cardinality({k \in 1 .. Len(log) : log[k][1] = t - 1}) <= 1
Partial == \A t \in T : res[t] # None => res[t] = F(input, t)
Finishes == <>(stage = Stages + 1)
=============================================================================
