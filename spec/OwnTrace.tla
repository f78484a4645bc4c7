------------------------------ MODULE OwnTrace ------------------------------
EXTENDS Own, TraceData
VARIABLES t, l
(* e.dig: digests of all objects the caller holds, after the step, as      *)
(* [n, d] (name, digest); e.w: the objects the caller itself wrote in it.  *)
Same(prev, now, w) ==
  \A i \in 1 .. Len(now) : \A j \in 1 .. Len(prev) :
     (prev[j].n = now[i].n /\ \A k \in 1 .. Len(w) : w[k] # now[i].n) => prev[j].d = now[i].d
AnsOk(o, f) == /\ IsList(o) /\ IsList(f) /\ Len(o.v) = Len(f.v)
               /\ \A i \in 1 .. Len(o.v) :
                    /\ IsArr(o.v[i]) /\ IsArr(f.v[i]) /\ o.v[i].fin /\ f.v[i].fin
                    /\ o.v[i].shape = f.v[i].shape
                    /\ VecNear(o.v[i].v, f.v[i].v, TolM, TolM)
Verdict(tr, i) ==
  LET e == tr.ev[i] IN
  CASE e.op \in {"crash", "timeout", "escaped"} -> {"terminates_normally"}
    [] OTHER ->
      (IF i = 1 THEN {} ELSE Clause("caller_data_unchanged_" \o e.op, Same(tr.ev[i - 1].dig, e.dig, e.w)))
      \cup Clause("completes_" \o e.op, ~IsBad(e.o))
      \cup (IF "fresh" \in DOMAIN e THEN Clause("answer_as_fresh_" \o e.op, AnsOk(e.o, e.fresh)) ELSE {})
TInit == t \in 1 .. Len(Traces) /\ l = 0 /\ Init
TNext == /\ l < Len(Traces[t].ev)
         /\ Report(t, l + 1, TLCEval(Verdict(Traces[t], l + 1)))
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, sc, ver, kept, deps, done>>
=============================================================================
