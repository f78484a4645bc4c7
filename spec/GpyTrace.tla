------------------------------ MODULE GpyTrace ------------------------------
EXTENDS Gpy, TraceData
VARIABLES t, l, M, C
ListOf(o, n, Q(_, _)) == IsList(o) /\ Len(o.v) = n /\ \A i \in 1 .. n : Q(o.v[i], i)
Z(b, d, i) == [d |-> d, x |-> Millis(b[d][i])]
Verdict(sc, m, c, e) ==
  CASE e.op = "build" -> Clause("accepted", e.o.k = "none")
    [] e.op = "params" ->
         Clause("ranks", ListOf(e.ranks, Len(sc.r.terms), LAMBDA x, q : IsInt(x, Len(sc.r.terms[q].A))))
    [] e.op = "kernels" ->    \* the kernels the wrapper was given
         Clause("kernels_kept", ListOf(e.o, Len(sc.r.terms), LAMBDA x, q :
            ArrIsVec(x, Vec(Len(e.d), LAMBDA i : KEval(KernM(sc.r.terms[q].kern), Milli(e.d[i]))), Tol, Tol)))
    [] e.op = "ll" -> Clause("log_likelihood", NumIs(e.o, DLL(m, c), TolL, TolL))
    [] e.op = "predict" ->
         LET pair == IsList(e.o) /\ Len(e.o.v) = 2 IN
         Clause("one_array_per_output", pair /\ \A k \in 1 .. 2 :
            ListOf(e.o.v[k], m.D, LAMBDA x, d : FinArr(x, <<Len(e.X[d])>>)))
         \cup Clause("mean", pair /\ ListOf(e.o.v[1], m.D, LAMBDA x, d :
                ArrIsVec(x, Vec(Len(e.X[d]), LAMBDA i : DMean(m, c, Z(e.X, d, i))), TolL, TolL)))
         \cup Clause("variance", pair /\ ListOf(e.o.v[2], m.D, LAMBDA x, d :
                ArrIsVec(x, Vec(Len(e.X[d]), LAMBDA i : DVar(m, c, Z(e.X, d, i))), TolL, TolL)))
    [] e.op = "quant" ->
         LET q == Quants(e.qt) IN
         Clause("one_table_per_output", ListOf(e.o, m.D, LAMBDA x, d : FinArr(x, <<Len(e.X[d]), Len(q)>>)))
         \cup Clause("quantiles", ListOf(e.o, m.D, LAMBDA x, d :
            FinArr(x, <<Len(e.X[d]), Len(q)>>) => \A i \in 1 .. Len(e.X[d]) :
              LET mu == DMean(m, c, Z(e.X, d, i))
                  sd == FSqrt(DVar(m, c, Z(e.X, d, i)))
              IN \A k \in 1 .. Len(q) :
                   FNear(FPhi(FDiv(FSub(x.v[(i - 1) * Len(q) + k], mu), sd)), FRat(q[k], 1000), TolL, TolL)))
    [] OTHER -> {"terminates_normally"}
TInit == /\ t \in 1 .. Len(Traces) /\ l = 0 /\ M = Nil /\ C = Nil
         /\ phase = "trace" /\ g = Nil /\ ops = <<>>
TNext == /\ l < Len(Traces[t].ev)
         /\ LET e == Traces[t].ev[l + 1] IN
            /\ M' = IF e.op = "params" THEN DenseModel(Traces[t].sc.r, e.terms, e.noise) ELSE M
            /\ C' = IF e.op = "params" THEN DenseCtx(M') ELSE C
            /\ Report(t, l + 1, TLCEval(Verdict(Traces[t].sc, M', C', e)))
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, phase, g, ops>>
=============================================================================
