----------------------------- MODULE NormTrace -----------------------------
(* Normalization and quantiles of real models (C09).                       *)
EXTENDS Predict, TraceData
VARIABLES t, l, pred       \* pred: predictions per batch, as observed

Quants(q) == CASE q = "def" -> <<25, 975>> [] q = "one" -> <<500>>
               [] q = "many" -> <<10, 50, 250, 750, 990>> [] q = "rev" -> <<975, 500, 25, 25>>
               [] q = "ext" -> <<1, 5, 16, 500, 984, 997, 999>>
ListOfArr(o, b) == /\ IsList(o) /\ Len(o.v) = Len(b)
                   /\ \A d \in 1 .. Len(b) : FinArr(o.v[d], <<Len(b[d])>>)
IsPred(o, b) == IsList(o) /\ Len(o.v) = 2 /\ ListOfArr(o.v[1], b) /\ ListOfArr(o.v[2], b)

Verdict(sc, ps, e) ==
  LET r == sc.r
      YM == TLCEval([d \in 1 .. r.D |-> Millis(r.Y[d])])
  IN
  CASE e.op = "ys" ->      \* observations the model works with
         LET want(d) == IF e.norm
                        THEN LET mu == MeanOf(YM[d])
                                 sd == StdOf(YM[d])
                             IN [i \in 1 .. Len(YM[d]) |-> FDiv(FSub(YM[d][i], mu), sd)]
                        ELSE YM[d]
         IN Clause(IF e.norm THEN "normalized_observations" ELSE "raw_observations",
              IsList(e.o) /\ Len(e.o.v) = r.D
              /\ \A d \in 1 .. r.D : ArrIsVec(e.o.v[d], want(d), Tol, Tol))
    [] e.op = "units" ->
         (* the model of the observations of output d in units of 10^-u[d]: *)
         (* its observations, and its predictions converted back            *)
         LET b == sc.qs[e.b]
             p == ps[e.b]
         IN IF ~r.norm THEN {} ELSE
            Clause("normalized_observations",
              IsList(e.ys) /\ Len(e.ys.v) = r.D
              /\ \A d \in 1 .. r.D : LET mu == MeanOf(YM[d])
                                        sd == StdOf(YM[d])
                 IN ArrIsVec(e.ys.v[d], [i \in 1 .. Len(YM[d]) |-> FDiv(FSub(YM[d][i], mu), sd)], Tol, Tol))
            \cup Clause("scaled_shape", IsPred(e.o, b)) \cup
            (IF ~IsPred(e.o, b) \/ ~IsPred(p, b) THEN {} ELSE
             Clause("mean_transforms", \A d \in 1 .. r.D : \A i \in 1 .. Len(b[d]) :
                FNear(e.o.v[1].v[d].v[i], p.v[1].v[d].v[i], FRat(1, 20000), TolM))
             \cup Clause("variance_transforms", \A d \in 1 .. r.D : \A i \in 1 .. Len(b[d]) :
                FNear(e.o.v[2].v[d].v[i], p.v[2].v[d].v[i], FRat(1, 20000), FRat(1, 20000))))
    [] e.op = "predict" -> Clause("predict_shape", IsPred(e.o, sc.qs[e.b]))
    [] e.op = "scaled" ->  \* the model of a y + b, same queries
         LET b == sc.qs[e.b]
             p == ps[e.b]
             A(d) == Milli(sc.a[d])
             B(d) == Milli(sc.b[d])
         IN IF ~r.norm THEN {} ELSE
            Clause("scaled_shape", IsPred(e.o, b)) \cup
            (IF ~IsPred(e.o, b) \/ ~IsPred(p, b) THEN {} ELSE
             Clause("mean_transforms", \A d \in 1 .. r.D : \A i \in 1 .. Len(b[d]) :
                FNear(e.o.v[1].v[d].v[i], FAdd(FMul(A(d), p.v[1].v[d].v[i]), B(d)),
                      FMul(FRat(1, 20000), FAdd(A(d), F0)), TolM))
             \cup Clause("variance_transforms", \A d \in 1 .. r.D : \A i \in 1 .. Len(b[d]) :
                FNear(e.o.v[2].v[d].v[i], FMul(FSq(A(d)), p.v[2].v[d].v[i]),
                      FMul(FRat(1, 20000), FSq(A(d))), FRat(1, 20000))))
    [] e.op = "quantiles" ->
         LET b == sc.qs[e.b]
             p == ps[e.b]
             qt == Quants(e.qt)
             shape == IsList(e.o) /\ Len(e.o.v) = r.D
                      /\ \A d \in 1 .. r.D : FinArr(e.o.v[d], <<Len(b[d]), Len(qt)>>)
             ok(d, i, j) ==
               LET q == e.o.v[d].v[(i - 1) * Len(qt) + j]
                   mu == p.v[1].v[d].v[i]
                   va == p.v[2].v[d].v[i]
               IN IF FLt(va, FRat(1, 1000000)) THEN FNear(q, mu, FRat(1, 100), FRat(1, 100))
                  ELSE LET z == FDiv(FSub(q, mu), FSqrt(va))
                       IN FLe(FAbs(z), FInt(5)) /\ FNear(FPhi(z), FRat(qt[j], 1000), TolM, F0)
         IN Clause("quantile_shape", shape) \cup
            (IF ~shape \/ ~IsPred(p, b) THEN {} ELSE
             Clause("quantile_values", \A d \in 1 .. r.D : \A i \in 1 .. Len(b[d]) :
                                       \A j \in 1 .. Len(qt) : ok(d, i, j)))
    [] OTHER -> {"terminates_normally"}

TInit == /\ t \in 1 .. Len(Traces) /\ l = 0 /\ pred = <<>>
         /\ phase = "trace" /\ g = Nil /\ call = Nil /\ qs = <<>>
TNext == /\ l < Len(Traces[t].ev)
         /\ LET e == Traces[t].ev[l + 1]
                b == TLCEval(Verdict(Traces[t].sc, pred, e))
            IN /\ Report(t, l + 1, b)
               /\ pred' = IF e.op = "predict" THEN Append(pred, e.o) ELSE pred
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, phase, g, call, qs>>
=============================================================================
