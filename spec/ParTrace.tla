------------------------------ MODULE ParTrace ------------------------------
EXTENDS Par, TraceData
VARIABLES t, l
(* two observations of the same call, with and without processes *)
SameNum(a, b, tol) == a.k = "num" /\ b.k = "num" /\ a.fin /\ b.fin /\ FNear(a.v, b.v, tol, tol)
SameArr(a, b, tol) == IsArr(a) /\ IsArr(b) /\ a.fin /\ b.fin /\ a.shape = b.shape /\ VecNear(a.v, b.v, tol, tol)
SameObs(a, b, tol) == \/ (a.k = "num" /\ SameNum(a, b, tol))
                 \/ (IsArr(a) /\ SameArr(a, b, tol))
                 \/ (IsList(a) /\ IsList(b) /\ Len(a.v) = Len(b.v)
                     /\ \A i \in 1 .. Len(a.v) : SameArr(a.v[i], b.v[i], tol))
Verdict(sc0, e) ==
  CASE e.op = "round" ->
         LET r == sc0.rounds[e.i] x == Outcome(r) IN
         IF x.k = "fails"
         THEN Clause("failure_reaches_caller", RaisesA(e.o, "TaskError"))
              \cup Clause("failure_is_of_a_task", e.o.k = "exc" => \E i \in 1 .. Len(x.v) : x.v[i] = e.task)
         ELSE Clause("results_in_submission_order",
                     IsList(e.o) /\ Len(e.o.v) = r.n
                     /\ \A i \in 1 .. r.n : IsInt(e.o.v[i], x.v[i]))
              \cup Clause("every_task_runs_once", e.ran = r.n)
    [] e.op = "burst" ->
         IF sc0.fail = 0
         THEN Clause("results_in_submission_order",
                     ArrIsVec(e.o, [i \in 1 .. sc0.n |-> FInt(F(i))], F0, F0))
         ELSE Clause("failure_reaches_caller", RaisesA(e.o, "TaskError"))
    [] e.op \in {"timeout", "crash", "escaped"} -> {"terminates_normally"}
    [] OTHER -> Clause("same_with_processes_" \o e.op, SameObs(e.par, e.one, IF e.op = "optimize" THEN TolM ELSE FRat(1, 1000000000)) = TRUE)
TInit == t \in 1 .. Len(Traces) /\ l = 0 /\ Init
TNext == /\ l < Len(Traces[t].ev)
         /\ Report(t, l + 1, TLCEval(Verdict(Traces[t].sc, Traces[t].ev[l + 1])))
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, sc, nxt, run, slots, done>>
=============================================================================
