------------------------------- MODULE Export -------------------------------
(* Behaviours of a design specification are exported by printing a record   *)
(* as JSON when the behaviour finishes (only when EXPORT is set).           *)
EXTENDS Sequences, TLC, Json, IOUtils
Exporting == "EXPORT" \in DOMAIN IOEnv /\ IOEnv.EXPORT = "1"
Out(rec) == Exporting => PrintT("OUT " \o ToJson(rec))
=============================================================================
