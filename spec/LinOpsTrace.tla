---------------------------- MODULE LinOpsTrace ----------------------------
(* Products computed by the real matrix classes, decided by LinOps!Dense.  *)
EXTENDS LinOps, TraceData

VARIABLES t, l, dense      \* dense: the matrix denoted, once per trace
FVec(v) == [i \in 1 .. Len(v) |-> FInt(v[i])]
FMat(A) == [i \in 1 .. Len(A) |-> FVec(A[i])]
MTol == FRat(1, 10000000)

(* probe vector p of call c: integer entries; "half" probes are divided by 2 *)
ProbeV(c, p, n) == GenVec(c.s + p, n)
ProbeM(c, p, n, w) == IMat(n, w, LAMBDA i, j : Gen(c.s + p, i, j + 1))

Verdict(c, D, e) ==
  LET n == Cols(c.e)
      m == Rows(c.e)
  IN
  CASE e.op = "shape" -> Clause("shape", IsList(e.o) /\ Len(e.o.v) = 2
                              /\ IsInt(e.o.v[1], m) /\ IsInt(e.o.v[2], n))
    [] e.op = "square" -> Clause("is_square", IsBool(e.o, m = n))
    [] e.op = "numpy" -> Clause("as_numpy_" \o e.via, ArrIsMat(e.o, FMat(D), n, MTol, MTol))
    [] e.op = "matvec" ->
         LET x == ProbeV(c, e.p, n)
             y == FVec(IMulV(D, x))
         IN Clause("matvec_" \o e.via,
              ArrIsVec(e.o, IF e.half THEN VecScale(FHalf, y) ELSE y, MTol, MTol))
    [] e.op = "matmat" ->
         LET X == ProbeM(c, e.p, n, e.w)
             Y == IF e.w = 0 THEN [i \in 1 .. m |-> <<>>] ELSE FMat(IMul(D, X))
         IN Clause("matmat_" \o e.via, ArrIsMat(e.o, Y, e.w, MTol, MTol))
    [] e.op = "same" -> Clause("argument_untouched_" \o e.via, IsBool(e.o, TRUE))
    [] OTHER -> {"terminates_normally"}

TInit == /\ t \in 1 .. Len(Traces) /\ l = 0 /\ dense = <<>>
         /\ stack = <<>> /\ nops = 0 /\ call = Nil
TNext == /\ l < Len(Traces[t].ev)
         /\ dense' = IF l = 0 THEN Dense(Traces[t].sc.e) ELSE dense
         /\ LET b == TLCEval(Verdict(Traces[t].sc, dense', Traces[t].ev[l + 1]))
            IN Report(t, l + 1, b)
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, stack, nops, call>>
=============================================================================
