--------------------------- MODULE SpectralTrace ---------------------------
EXTENDS Spectral, TraceData
VARIABLES t, l
Verdict(c, e) ==
  CASE e.op = "bound" ->
        LET A == Dense(c.e)
            ok == e.o.k = "num" /\ e.o.fin
        IN Clause("bound_is_a_number", ok)
           \cup Clause("bound_covers_spectrum_" \o c.e.t, ok =>
                  PosDef(Shifted(FAdd(e.o.v, FMul(FRat(1, 10000000), FAdd(F1, FAbs(e.o.v)))), A), 1, F0))
           \cup Clause("toeplitz_bound_is_row_sum", (ok /\ c.e.t = "toep") =>
                  FNear(e.o.v, FInt(BoundOf(c.e)), Tol, Tol))
    [] e.op = "chol" ->
        LET n == Len(c.top)
            T == ToepF(c.top)
            ok == FinArr(e.o, <<n, n>>)
            C == MatOf(e.o)
            tol == FMul(TolM, FRat(c.top[1], 1000))
        IN Clause("factor_shape", ok)
           \cup Clause("factor_upper_triangular", ok =>
                 \A i \in 1 .. n : \A j \in 1 .. i - 1 : FNear(C[i][j], F0, tol, F0))
           \cup Clause("factor_product", ok => MatNear(MatMul(Transpose(C), C), T, tol, F0))
    [] e.op = "same" -> Clause("argument_untouched", IsBool(e.o, TRUE))
    [] OTHER -> {"terminates_normally"}
TInit == t \in 1 .. Len(Traces) /\ l = 0 /\ stack = <<>> /\ nops = 0 /\ call = Nil
TNext == /\ l < Len(Traces[t].ev)
         /\ Report(t, l + 1, TLCEval(Verdict(Traces[t].sc, Traces[t].ev[l + 1])))
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, stack, nops, call>>
=============================================================================
