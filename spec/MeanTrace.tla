----------------------------- MODULE MeanTrace -----------------------------
EXTENDS Mean, TraceData
VARIABLES t, l
ListOf(o, n, P(_, _)) == IsList(o) /\ Len(o.v) = n /\ \A i \in 1 .. n : P(o.v[i], i)
Rep(n, x) == [i \in 1 .. n |-> x]
After(s, e) == Apply(s, e)
Verdict(s, e) ==
  LET ob == s[e.k] IN
  CASE e.op = "new" -> IF BadC0(e) THEN Clause("bad_offsets_rejected", RaisesA(e.o, "ValueError"))
                       ELSE Clause("accepted", e.o.k = "none")
    [] e.op = "f" -> IF e.fault # "none" THEN Clause("bad_inputs_rejected", RaisesA(e.o, "ValueError"))
         ELSE Clause("mean_values_" \o ob.t, ListOf(e.o, ob.D, LAMBDA o, i :
                ArrIsVec(o, Rep(e.lens[i], IF ob.t = "zero" THEN F0 ELSE Milli(ob.c[i])), Tol, Tol)))
    [] e.op = "grad" ->
         Clause("mean_gradient_" \o ob.t, ListOf(e.o, Len(ob.c), LAMBDA o, p :
           ListOf(o, ob.D, LAMBDA a, i : ArrIsVec(a, Rep(e.lens[i], IF p = i THEN F1 ELSE F0), Tol, Tol))))
    [] e.op \in {"setall", "set1", "upd", "read"} ->
         LET n == After(s, e)[e.k] IN
         Clause("offsets", ArrIsVec(e.c, Millis(n.c), Tol, Tol))
         \cup Clause("gradient_stored", n.g # <<>> => ArrIsVec(e.g, Millis(n.g), Tol, Tol))
    [] OTHER -> {"terminates_normally"}
TInit == t \in 1 .. Len(Traces) /\ l = 0 /\ Init
TNext == /\ l < Len(Traces[t].ev)
         /\ LET e == Traces[t].ev[l + 1] IN
            /\ Report(t, l + 1, TLCEval(Verdict(objs, e)))
            /\ objs' = Apply(objs, e)
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, ops, fired>>
=============================================================================
