---------------------------- MODULE PriorsTrace ----------------------------
EXTENDS Priors, TraceData
VARIABLES t, l
Verdict(E, P, e) ==
  CASE e.op \in {"start", "prior", "unset", "positive", "write"} ->
       LET o == e.o IN
       IF o.k # "read" THEN {"operation_accepted"} ELSE
       LET lp == LogPrior(E, P)
           sum == FAdd(o.ll.v, lp)
       IN Clause("parameter_values", ArrIsVec(o.vals, [i \in 1 .. Len(E) |-> Milli(E[i].v)], Tol, Tol))
          \cup Clause("log_prior", NumIs(o.lp, lp, Tol, Tol))
          \cup Clause("objective", o.ll.k = "num" /\ NumIs(o.obj, FNeg(sum), Tol, Tol))
          \cup Clause("prior_gradient", ArrIsVec(o.pg, PriorGrad(E, P), TolM, TolM))
          \cup Clause("no_gradient_without_prior", NumIs(o.rest, F0, Tol, F0))
    [] e.op = "density" ->
         Clause("log_density_" \o P[e.p].t, ArrIsVec(e.f, [i \in 1 .. Len(e.x) |-> LnPdf(P[e.p], Milli(e.x[i]))], Tol, Tol))
         \cup Clause("density_gradient_" \o P[e.p].t, ArrIsVec(e.g, [i \in 1 .. Len(e.x) |-> LnPdfGrad(P[e.p], Milli(e.x[i]))], Tol, Tol))
         \cup Clause("scalar_density_" \o P[e.p].t, NumIs(e.f1, LnPdf(P[e.p], Milli(e.x[1])), Tol, Tol)
                 /\ NumIs(e.g1, LnPdfGrad(P[e.p], Milli(e.x[1])), Tol, Tol))
    [] OTHER -> {"terminates_normally"}
TInit == /\ t \in 1 .. Len(Traces) /\ l = 0
         /\ kind = Traces[t].sc.kind /\ ent = Fresh(kind, Traces[t].sc.v0)
         /\ pool = Traces[t].sc.pool /\ v0 = <<>> /\ ops = <<>> /\ fired = FALSE
TNext == /\ l < Len(Traces[t].ev)
         /\ LET e == Traces[t].ev[l + 1] IN
            /\ ent' = Apply(ent, pool, e)
            /\ Report(t, l + 1, TLCEval(Verdict(ent', pool, e)))
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, kind, pool, v0, ops, fired>>
=============================================================================
