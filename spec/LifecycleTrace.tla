--------------------------- MODULE LifecycleTrace ---------------------------
(* Histories of real models.  cur holds, per model, the parameters the     *)
(* history determines; every event shows the parameters of all models, and *)
(* a read also shows the answer of a newly built model in a new process    *)
(* with the parameters shown.                                              *)
EXTENDS Lifecycle, TraceData
VARIABLES t, l, cur

MFlat(r) == Millis(Flat(r))
(* per model: its description, parameters, fixed parts *)
Start(sc) == TLCEval([h \in 1 .. sc.n |->
   [r |-> sc.ms[h].r, v |-> TLCEval(MFlat(sc.ms[h].r)), fix |-> {}]])
Upd(v, off, vals) == TLCEval([i \in 1 .. Len(v) |->
   IF i > off /\ i <= off + Len(vals) THEN Milli(vals[i - off]) ELSE v[i]])
Opaques == {"randomize", "optimize", "shift", "interrupt"}
Attrs == {"prior", "unprior", "fix", "free"}
(* positions that stay positive *)
Positive(r) == {i \in 1 .. Len(Flat(r)) :
  \E w \in Writable(r) : w.what # "vec" /\
     (LET pt == Part(r, w.what, w.q) IN i > pt.off /\ i <= pt.off + pt.len)}
(* what the parameters are after the event *)
After(sc, c, e) ==
  CASE e.op = "set" -> [c EXCEPT ![e.h].v = Upd(@, e.off, e.vals)]
    [] e.op \in Opaques -> [c EXCEPT ![e.h].v = e.ps[e.h].v]
    [] e.op = "copy" -> Append(c, c[e.h])
    [] e.op = "fix" -> [c EXCEPT ![e.h].fix = @ \cup {[what |-> e.what, q |-> e.q]}]
    [] e.op = "free" -> [c EXCEPT ![e.h].fix = @ \ {[what |-> e.what, q |-> e.q]}]
    [] OTHER -> c
ShowsParams(c, e) == Len(e.ps) = Len(c) /\ \A h \in 1 .. Len(c) : ArrIsVec(e.ps[h], c[h].v, Tol, Tol)
(* positions the optimizer may move *)
In(r, w, i) == LET pt == Part(r, w.what, w.q) IN i > pt.off /\ i <= pt.off + pt.len
Moves(m) == {i \in 1 .. Len(m.v) : \E w \in Writable(m.r) : w \notin m.fix /\ In(m.r, w, i)}
ShowsFree(c, e) == \A h \in 1 .. Len(c) : e.free[h] = Cardinality(Moves(c[h]))
RECURSIVE Same(_, _, _)
Same(o, f, tol) ==
  CASE f.k = "num" -> (~f.fin /\ o.k = "num" /\ ~o.fin) \/ (f.fin /\ NumIs(o, f.v, tol, tol))
    [] f.k = "arr" -> HasShape(o, f.shape) /\ (o.fin = f.fin) /\ (f.fin => VecNear(o.v, f.v, tol, tol))
    [] f.k = "list" -> IsList(o) /\ Len(o.v) = Len(f.v)
                       /\ \A i \in 1 .. Len(f.v) : Same(o.v[i], f.v[i], tol)
    [] f.k = "exc" -> IsExc(o) /\ o.t = f.t
    [] OTHER -> FALSE
Verdict(sc, c, e) ==
  IF e.op \notin {"create", "set", "suspend", "resume", "mode", "read", "copy"} \cup Opaques \cup Attrs
  THEN {"terminates_normally"} ELSE
  LET n == TLCEval(After(sc, c, e))
      tol == IF e.crit THEN Tol3 ELSE TolM
  IN Clause("parameters_are_those_written_" \o e.op, ShowsParams(n, e))
     \cup Clause("free_parameters_" \o e.op, ShowsFree(n, e))
     \cup (IF e.op \notin Opaques THEN {} ELSE
           LET r == c[e.h].r IN
           Clause("fixed_parameters_kept", \A i \in (1 .. Len(c[e.h].v)) \ Moves(c[e.h]) :
                    FNear(n[e.h].v[i], c[e.h].v[i], Tol, F0))
           \cup Clause("positive_parameters", \A i \in Positive(r) : FLe(F0, n[e.h].v[i])))
     \cup (IF e.op # "read" THEN {} ELSE
           IF e.what = "grad"
           THEN Clause("current_grad", IsList(e.fresh) /\
                  \E i \in 1 .. Len(e.fresh.v) : Same(e.o, e.fresh.v[i], tol))
           ELSE Clause("current_" \o e.what, Same(e.o, e.fresh, tol)))

TInit == /\ t \in 1 .. Len(Traces) /\ l = 0 /\ cur = Start(Traces[t].sc)
         /\ phase = "trace" /\ g = Nil /\ ms = <<>> /\ cache = NoCache /\ ops = <<>>
         /\ ans = [outdated |-> FALSE]
TNext == /\ l < Len(Traces[t].ev)
         /\ LET e == Traces[t].ev[l + 1]
                b == TLCEval(Verdict(Traces[t].sc, cur, e))
            IN /\ Report(t, l + 1, b)
               /\ cur' = IF "ps" \notin DOMAIN e THEN cur ELSE TLCEval(After(Traces[t].sc, cur, e))
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, phase, g, ms, cache, ops, ans>>
=============================================================================
