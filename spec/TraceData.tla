----------------------------- MODULE TraceData -----------------------------
(* The recorded traces: one JSON object per line, with fields id, sc (the  *)
(* scenario, as generated by TLC from the specification) and ev (what the  *)
(* real code did, one entry per step).                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
(* one line for the runner per rejected step *)
Report(t, l, bad) ==
  IF bad = {} THEN TRUE
  ELSE PrintT("@BAD " \o ToJson([id |-> Traces[t].id, step |-> l, bad |-> bad]))
Done(t, n) == PrintT("@END " \o ToJson([id |-> Traces[t].id, n |-> n]))
=============================================================================
