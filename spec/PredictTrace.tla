---------------------------- MODULE PredictTrace ----------------------------
(* Predictions made by real models.                                        *)
EXTENDS Predict, TraceData
VARIABLES t, l, M, C, Tb

(* one array per output, in query order *)
PerOutput(o, b, Expect(_, _), Slack(_, _)) ==
  /\ IsList(o) /\ Len(o.v) = Len(b)
  /\ \A d \in 1 .. Len(b) :
       /\ FinArr(o.v[d], <<Len(b[d])>>)
       /\ \A i \in 1 .. Len(b[d]) : FNear(o.v[d].v[i], Expect(d, i), Slack(d, i), TolM)
Shapes(o, b) == /\ IsList(o) /\ Len(o.v) = Len(b)
                /\ \A d \in 1 .. Len(b) : HasShape(o.v[d], <<Len(b[d])>>)

Z(b, d, i) == [d |-> d, x |-> Millis(b[d][i])]
Verdict(sc, m, c, tb, e) ==
  LET split == Cardinality(ActiveDims(m)) > 1
      scl == Scales(sc.r)
  IN
  CASE e.op = "predict" /\ sc.mode = "precompute" /\ split ->
         Clause("precompute_refused", RaisesA(e.o, "ValueError"))
    [] e.op = "predict" /\ ~(sc.mode = "precompute" /\ split) ->
         LET b == sc.qs[e.b]
             mean(d, i) == FAdd(scl[d].mu, FMul(scl[d].sd, Mean(m, c, tb, Z(b, d, i))))
             mslack(d, i) == LET z == Z(b, d, i) IN
               FMul(FAdd(F1, scl[d].sd), SolveSlack(e.crit,
                    MatVec(c.is, CrossSki(m, c, tb, d, QueryW(m, z)))))
             var(d, i) == FMul(FSq(scl[d].sd), Variance(m, c, tb, sc.mode, Z(b, d, i)))
             vslack(d, i) == LET z == Z(b, d, i) IN
               FMul(FAdd(F1, FSq(scl[d].sd)),
                 IF sc.mode = "exact" THEN TolM
                 ELSE IF sc.mode = "on-the-fly"
                 THEN SolveSlack(e.crit, MatVec(c.is, CrossExact(m, c, z)))
                 ELSE FMul(FInt(10), SolveSlack(e.crit,
                        MatVec(c.is, CrossSki(m, c, tb, d, QueryW(m, z))))))
             pair == IsList(e.o) /\ Len(e.o.v) = 2
         IN Clause("one_array_per_output", pair /\ Shapes(e.o.v[1], b) /\ Shapes(e.o.v[2], b))
            \cup Clause("mean", pair /\ PerOutput(e.o.v[1], b, mean, mslack))
            \cup Clause("variance_" \o sc.mode, pair /\ PerOutput(e.o.v[2], b, var, vslack))
            \cup Clause("variance_nonnegative", pair /\ IsList(e.o.v[2]) /\
                  \A d \in 1 .. Len(e.o.v[2].v) : IsArr(e.o.v[2].v[d]) =>
                    \A i \in 1 .. Len(e.o.v[2].v[d].v) : FLe(F0, e.o.v[2].v[d].v[i]))
    [] OTHER -> {"terminates_normally"}

TInit == /\ t \in 1 .. Len(Traces) /\ l = 0 /\ M = Nil /\ C = Nil /\ Tb = <<>>
         /\ phase = "trace" /\ g = Nil /\ call = Nil /\ qs = <<>>
TNext == /\ l < Len(Traces[t].ev)
         /\ M' = IF l = 0 THEN ModelOf(Traces[t].sc.r) ELSE M
         /\ C' = IF l = 0 THEN Context(M') ELSE C
         /\ Tb' = IF l = 0 THEN Tables(M') ELSE Tb
         /\ LET b == TLCEval(Verdict(Traces[t].sc, M', C', Tb', Traces[t].ev[l + 1]))
            IN Report(t, l + 1, b)
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, phase, g, call, qs>>
=============================================================================
