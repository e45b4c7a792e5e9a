---------------------------- MODULE TraceHistory ----------------------------
(* Verdicts on recorded histories.                                           *)
(*  calls: e.calls[i] = [f, key (function and arguments), before, after      *)
(*         (digests of the arguments), out (digest of the result when it is  *)
(*         returned), late (digest of the same result at the end of the      *)
(*         history), exc]; e.alone[key]: the outcome in a fresh process.      *)
(*  inter: two computations interleaved at stages, against each one alone.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TraceRun

FirstBad(n, v(_)) ==
    LET bad == {k \in 1 .. n : v(k) # "ok"} IN IF bad = {} THEN "ok" ELSE v(Min(bad))

JCalls(e) ==
    LET N == Len(e.calls)
        c(i) == e.calls[i]
        v(i) == CASE c(i).before # c(i).after -> "arguments-changed-by-" \o c(i).f
                []   c(i).out # c(i).late -> "result-changed-later-" \o c(i).f
                []   \E j \in 1 .. N : j < i /\ c(j).key = c(i).key
                        /\ <<c(j).out, c(j).exc>> # <<c(i).out, c(i).exc>>
                        -> "repeated-call-differs-" \o c(i).f
                []   <<c(i).out, c(i).exc>> # <<e.alone[c(i).key].out, e.alone[c(i).key].exc>>
                        -> "history-changes-result-of-" \o c(i).f
                []   OTHER -> "ok"
    IN  FirstBad(N, v)

Diff(a, b) ==
    IF Len(a) # Len(b) THEN "result"
    ELSE LET d == {k \in 1 .. Len(a) : a[k] # b[k]}
         IN  IF d = {} THEN "" ELSE a[Min(d)][1]

JInter(e) ==
    LET v(i) == CASE e.both[i].exc # e.alone[i].exc -> "interleaving-changes-exception"
                []   Diff(e.alone[i].out, e.both[i].out) # ""
                        -> "interleaving-changes-" \o Diff(e.alone[i].out, e.both[i].out)
                []   OTHER -> "ok"
    IN  FirstBad(Len(e.alone), v)

JudgeHistory(e) ==
    IF e.exc # "" THEN "call-" \o e.exc
    ELSE CASE e.op = "calls" -> JCalls(e)
         []   e.op = "inter" -> JInter(e)
         []   OTHER -> "unknown-op"
=============================================================================
