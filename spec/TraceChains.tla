----------------------------- MODULE TraceChains -----------------------------
(* Verdicts on recorded histories of local chain collections.  e.ops: the    *)
(* operations with, after each one, a snapshot s of all registers (the       *)
(* registers that exist: e.ops[i].has) and the exception raised, if any.     *)
EXTENDS ChainSpec, TraceRun

After(d, op, e) ==
    LET pp == e.p IN
    CASE op.op = "new"   -> Den(op.c, e.wd, e.nr, pp)
    []   op.op = "empty" -> ZeroDen(e.wd, e.nr)
    []   op.op = "entry" -> IF Len(op.ref) = 0 THEN d[op.o]
                            ELSE DSet(d[op.o], op.k, op.ref, op.row, pp)
    []   op.op = "plus"  -> DAdd(d[op.a], d[op.b], pp)
    []   op.op = "minus" -> DNeg(d[op.o], pp)
    []   op.op = "sums"  -> DSums(d[op.a], op.co, pp)
    []   op.op = "copy"  -> d[op.a]
    []   op.op = "poke"  -> DPoke(d[op.o], op.k, op.r, op.row, pp)
    []   OTHER           -> d[op.o]

Malformed(op) == op.op = "badnew" \/ op.op = "badentry"

\* verdict and denotations after one operation; st = [d, v]
Step(st, op, e) ==
    IF st.v # "ok" THEN st
    ELSE LET d2 == IF Malformed(op) THEN st.d
                   ELSE [st.d EXCEPT ![op.o] = TLCEval(After(st.d, op, e))]
             see(o) == op.s[o]
             v == CASE Malformed(op) /\ op.exc # "ValueError" -> "mismatch-accepted"
                  []   ~ Malformed(op) /\ op.exc # "" -> "operation-raised"
                  []   \E o \in 1 .. e.nreg : op.has[o] /\ ~ WellFormed(see(o), e.wd)
                           -> "collection-not-well-formed"
                  []   op.has[op.o] /\ Den(see(op.o), e.wd, e.nr, e.p) # d2[op.o]
                           -> "wrong-result-of-" \o op.op
                  []   \E o \in 1 .. e.nreg : op.has[o]
                           /\ Den(see(o), e.wd, e.nr, e.p) # d2[o]
                           -> "other-collection-changed-by-" \o op.op
                  []   OTHER -> "ok"
         IN  [d |-> d2, v |-> v]

JudgeChains(e) ==
    IF e.exc # "" THEN "call-" \o e.exc
    ELSE FoldLeft(LAMBDA st, op : Step(st, op, e),
                  [d |-> [o \in 1 .. e.nreg |-> ZeroDen(e.wd, e.nr)], v |-> "ok"],
                  e.ops).v
=============================================================================
