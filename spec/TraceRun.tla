------------------------------ MODULE TraceRun ------------------------------
(* Runs Judge over every recorded event of TRACE_FILE.  One initial state   *)
(* per event; the single action of the trace specification consumes the     *)
(* event and records the verdict: "ok" or the name of the violated clause.  *)
(* Verdicts are total; the harness collects the BAD lines.                  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANT Judge(_)
VARIABLES l, verdict

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == l \in 1 .. Len(Trace) /\ verdict = "pending"

Consume ==
    /\ verdict = "pending"
    /\ l' = l
    /\ verdict' = Judge(Trace[l])
    /\ verdict' # "ok" => PrintT(<<"BAD", l, verdict'>>)

TNext == Consume
AllConsumed == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
