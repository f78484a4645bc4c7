-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* C03: the generated inducing grid, as a contract on what is returned.    *)
(***************************************************************************)
EXTENDS ModelGen
VARIABLE call
vars == <<phase, g, call>>
(* any bounds at all, per dimension or absent; counts *)
Fire == /\ phase = "ready" /\ call = Nil
        /\ \E how \in Pick({"float", "int", "list", "model", "shuffled"}) :
             call' = [r |-> g, how |-> how]
        /\ phase' = "done" /\ UNCHANGED g
Init == GInit /\ call = Nil
Next == (Build /\ UNCHANGED call) \/ Fire
Emit == IF call = Nil THEN TRUE ELSE PrintT("@SC " \o ToJson(call))

(* the contract, for grid points v (a sequence), data column col,          *)
(* requested bounds and count as in LMC!AxisOf                             *)
Lo(col, lo) == IF lo = <<>> THEN MinOf(col) ELSE FMin(lo[1], MinOf(col))
Hi(col, hi) == IF hi = <<>> THEN MaxOf(col) ELSE FMax(hi[1], MaxOf(col))
Count(col, m, nOut) == (IF m = <<>> THEN Len(col) \div nOut ELSE m[1]) + 4
Equispaced(v) == LET gap == FDiv(FSub(v[Len(v)], v[1]), FInt(Len(v) - 1)) IN
   /\ FLt(F0, gap)
   /\ \A i \in 1 .. Len(v) - 1 : FNear(FSub(v[i + 1], v[i]), gap, Tol, TolM)
Covers(v, col, lo, hi) ==
   /\ FLt(v[2], Lo(col, lo)) /\ FLe(Lo(col, lo), FAdd(v[3], Tol))
   /\ FLt(Hi(col, hi), v[Len(v) - 1]) /\ FLe(FSub(v[Len(v) - 2], Tol), Hi(col, hi))
(* Design: LMC!AxisOf satisfies the contract. *)
AxisMeetsContract ==
  phase = "ready" =>
  LET pts == PtsOf(g.X) IN
  \A p \in 1 .. g.P :
    LET col == [i \in 1 .. Len(pts) |-> pts[i].x[p]]
        lo == OptOf(g.lo, <<p - 1>>, 1, Milli)
        hi == OptOf(g.hi, <<p - 1>>, 1, Milli)
        m == OptOf(g.m, <<p - 1>>, 1, LAMBDA z : z)
        ax == AxisOf(col, lo, hi, m, g.D)
        v == TLCEval([i \in 1 .. ax.m |-> AxisPoint(ax, i)])
    IN ax.m = Count(col, m, g.D) /\ Equispaced(v) /\ Covers(v, col, lo, hi)
=============================================================================
