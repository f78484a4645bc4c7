----------------------------- MODULE ValidTrace -----------------------------
EXTENDS Valid, TraceData
VARIABLES t, l
Verdict(sc, e) ==
  CASE e.op = "call" -> IF Bad(sc) THEN Clause("rejected_" \o sc.kind, RaisesA(e.o, "ValueError"))
                        ELSE Clause("accepted_" \o sc.kind, ~IsBad(e.o))
    [] e.op = "use" -> IF Bad(sc) THEN {} ELSE Clause("accepted_" \o sc.kind, ~IsBad(e.o))
    [] e.op = "after" ->     \* existing objects, before and after the call
         Clause("existing_objects_usable", IsArr(e.before) /\ IsArr(e.now) /\ e.before.fin /\ e.now.fin
            /\ e.before.shape = e.now.shape /\ VecNear(e.now.v, e.before.v, TolM, TolM))
    [] e.op = "retry" -> Clause("arguments_reusable", e.o.k = "bool" /\ e.o.b)
    [] OTHER -> {"terminates_normally"}
TInit == t \in 1 .. Len(Traces) /\ l = 0 /\ Init
TNext == /\ l < Len(Traces[t].ev)
         /\ Report(t, l + 1, TLCEval(Verdict(Traces[t].sc, Traces[t].ev[l + 1])))
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, call, faults, done>>
=============================================================================
