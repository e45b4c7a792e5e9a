----------------------------- MODULE TraceSched -----------------------------
(* Verdicts on computations repeated under different schedules.  e.runs[i]:  *)
(* the schedule of every stage of run i as pairs <<task, worker>> in the      *)
(* order of completion, the result (pairs <<part, digest>>) and the exception *)
(* raised.  Run 1 is the sequential computation in one process.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TraceRun

Legal(st) == LET ts == {st[k][1] : k \in 1 .. Len(st)}
             IN  ts = 0 .. (Len(st) - 1)

\* first part of the result that differs
Diff(a, b) ==
    IF Len(a) # Len(b) THEN "result"
    ELSE LET d == {k \in 1 .. Len(a) : a[k] # b[k]}
         IN  IF d = {} THEN "" ELSE a[Min(d)][1]

JudgeSched(e) ==
    IF e.exc # "" THEN "call-" \o e.exc
    ELSE LET b  == e.runs[1]
             v(i) == LET r == e.runs[i] IN
                 CASE \E k \in 1 .. Len(r.sched) : ~ Legal(r.sched[k]) -> "illegal-schedule"
                 []   r.exc # b.exc -> "schedule-changes-outcome"
                 []   Diff(b.out, r.out) # "" -> "schedule-changes-" \o Diff(b.out, r.out)
                 []   OTHER -> "ok"
             bad == {i \in 2 .. Len(e.runs) : v(i) # "ok"}
         IN  IF b.exc # "" THEN "sequential-run-raised"
             ELSE IF bad = {} THEN "ok" ELSE v(Min(bad))
=============================================================================
