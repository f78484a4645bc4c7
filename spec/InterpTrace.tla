---------------------------- MODULE InterpTrace ----------------------------
EXTENDS Interp, TraceData
VARIABLES t, l

(* block diagonal of the outputs' rows, in output order *)
Block(axs, X) ==
  LET m == GridSize(Grids(axs))
      D == Len(X)
      all == TLCEval([d \in 1 .. D |-> RowsOf(axs, X[d])])
      f[d \in 0 .. D] == IF d = 0 THEN <<>> ELSE f[d - 1] \o
          [i \in 1 .. Len(all[d]) |-> [j \in 1 .. D * m |->
              IF j > (d - 1) * m /\ j <= d * m THEN all[d][i][j - (d - 1) * m] ELSE F0]]
  IN TLCEval(f[D])
(* positions are rounded to 1 part in 1e15: weights to that over the step *)
WTol(axs) == FRat(1, 10000000)
Verdict(sc, e) ==
  LET m == GridSize(Grids(sc.axes)) IN
  CASE e.op = "single" -> Clause("weights", ArrIsMat(e.o, RowsOf(sc.axes, sc.xs[e.d]), m, WTol(sc.axes), F0))
    [] e.op = "multi" -> Clause("multi_output_layout",
          ArrIsMat(e.o, Block(sc.axes, sc.xs), m * Len(sc.xs), WTol(sc.axes), F0))
    [] e.op = "reject" -> Clause("rejects_" \o sc.bad, RaisesA(e.o, "ValueError"))
    [] OTHER -> {"terminates_normally"}
TInit == t \in 1 .. Len(Traces) /\ l = 0 /\ axes = <<>> /\ xs = <<>> /\ call = Nil
TNext == /\ l < Len(Traces[t].ev)
         /\ LET b == TLCEval(Verdict(Traces[t].sc, Traces[t].ev[l + 1]))
            IN Report(t, l + 1, b)
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, axes, xs, call>>
=============================================================================
