----------------------------- MODULE KernTrace -----------------------------
EXTENDS Kern, TraceData
VARIABLES t, l, cur
Verdict(sc, c, e) ==
  LET k == sc.kern
      v == Millis(c)
      dd(i) == Milli(e.d[i])
      (* rounding is magnified by the scale and the distance, and for the  *)
      (* periodic kernel by d/period^2                                      *)
      slack(i) == LET sc1 == ScaleProd(Scls(k, v)) IN
        FMul(Tol, FAdd(FAdd(F1, FMul(sc1, dd(i))),
             IF k.t # "per" THEN F0
             ELSE FMul(FMul(sc1, v[1]), FMul(FInt(4), FDiv(dd(i), FSq(v[2]))))))
      near(o, sh, F(_)) == FinArr(o, sh) /\ \A i \in 1 .. Prod(sh) : FNear(o.v[i], F(i), slack(i), Tol)
  IN
  CASE e.op = "make" -> Clause("parameters_read_back", ArrIsVec(e.o, v, Tol, Tol))
    [] e.op = "set" -> Clause("parameters_read_back", ArrIsVec(e.o, Millis([c EXCEPT ![e.i] = e.v]), Tol, Tol))
    [] e.op = "eval" -> Clause("kernel_value_" \o k.t, near(e.o, e.sh, LAMBDA i : NEval(k, v, dd(i))))
    [] e.op = "grad" ->
         Clause("gradient_count", IsList(e.o) /\ Len(e.o.v) = Len(v))
         \cup Clause("kernel_gradient_" \o k.t, IsList(e.o) =>
               \A j \in 1 .. Len(e.o.v) : j <= Len(v) =>
                  near(e.o.v[j], e.sh, LAMBDA i : NGrad(k, v, dd(i))[j]))
    [] e.op = "update" -> Clause("gradient_reaches_parameter", ArrIsVec(e.o, Millis(e.v), Tol, Tol))
    [] e.op = "gpy" -> Clause("gpy_same_values", near(e.o, <<Len(e.d)>>, LAMBDA i : NEval(k, v, dd(i))))
    [] OTHER -> {"terminates_normally"}
TInit == t \in 1 .. Len(Traces) /\ l = 0 /\ Init /\ cur = Traces[t].sc.kern.p0
TNext == /\ l < Len(Traces[t].ev)
         /\ LET e == Traces[t].ev[l + 1]
                b == TLCEval(Verdict(Traces[t].sc, cur, e))
            IN /\ Report(t, l + 1, b)
               /\ cur' = IF e.op = "set" THEN [cur EXCEPT ![e.i] = e.v] ELSE cur
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, kern, par, ops, fired>>
=============================================================================
