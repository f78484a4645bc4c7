------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* C02: interpolation weights on equispaced grids.  A machine chooses the  *)
(* axes, then adds samples, output by output, or breaks the input in one   *)
(* of the ways that have to be rejected.  Positions in thousandths.        *)
(***************************************************************************)
EXTENDS LMC, Obs, Json
CONSTANTS Origins, Deltas, Sizes, Dims, MaxOut, MaxSamples, Offsets, Sim
VARIABLES axes, xs, call
vars == <<axes, xs, call>>
Nil == [t |-> "nil"]
OriginsMC == {0, 1000, -7300, 123456, -1000000}
OffsetsMC == (-3) .. 12
Pick(S) == PickIf(Sim, S)

(* samples sit at grid point k plus a fraction (in eighths) of a step *)
Pos(a, k, f) == a.o + k * a.d + (a.d * f) \div 8
Init == axes = <<>> /\ xs = <<>> /\ call = Nil
Axis == /\ call = Nil /\ xs = <<>> /\ Len(axes) < 2
        /\ (Len(axes) + 1 \in Dims \/ 2 \in Dims)
        /\ \E o \in Pick(Origins), d \in Pick(Deltas), m \in Pick(Sizes) :
             axes' = Append(axes, [o |-> o, d |-> d, m |-> m])
        /\ UNCHANGED <<xs, call>>
NewOut == /\ call = Nil /\ Len(axes) \in Dims /\ Len(xs) < MaxOut
          /\ xs' = Append(xs, <<>>) /\ UNCHANGED <<axes, call>>
Sample == /\ call = Nil /\ xs # <<>> /\ Len(xs[Len(xs)]) < MaxSamples
          /\ \E k \in Pick(Offsets), f \in Pick(0 .. 7), k2 \in Pick(Offsets), f2 \in Pick(0 .. 7) :
               /\ (Len(axes) = 1 => k2 = k /\ f2 = f) \/ Sim
               /\ LET at(a, kk, ff) == Pos(a, IF kk > 4 THEN kk - 8 + a.m ELSE kk, ff)
                      row == IF Len(axes) = 1 THEN <<at(axes[1], k, f)>>
                             ELSE <<at(axes[1], k, f), at(axes[2], k2, f2)>>
                  IN xs' = [xs EXCEPT ![Len(xs)] = Append(@, row)]
          /\ UNCHANGED <<axes, call>>
Total == LET n[i \in 0 .. Len(xs)] == IF i = 0 THEN 0 ELSE n[i - 1] + Len(xs[i]) IN n[Len(xs)]
Fire == /\ call = Nil /\ xs # <<>> /\ (Sim => RandomElement(1 .. 3) = 1)
        /\ call' = [axes |-> axes, xs |-> xs, bad |-> "no", at |-> 0, len |-> 0, off |-> 0]
        /\ UNCHANGED <<axes, xs>>
Bads == {"short", "uneven", "grid2d", "samples", "gap"}
(* gap: one gap of a longer axis is off by this many thousandths of a step *)
Offs == {300, 40, 10, -10, -40, -300}
Lens == {4, 9, 30, 60}
Break == /\ call = Nil /\ xs # <<>> /\ xs[1] # <<>> /\ (Sim => RandomElement(1 .. 6) = 1)
         /\ \E b \in Pick(Bads) :
            \E n \in Pick(IF b = "gap" THEN Lens ELSE {axes[Len(axes)].m}),
               off \in Pick(IF b = "gap" THEN Offs ELSE {0}) :
            \E at \in Pick(IF b = "gap" THEN {1, n - 1, n \div 2} ELSE 1 .. n) :
              call' = [axes |-> axes, xs |-> xs, bad |-> b, at |-> at, len |-> n, off |-> off]
         /\ UNCHANGED <<axes, xs>>
Next == Axis \/ NewOut \/ Sample \/ Fire \/ Break
Emit == IF call = Nil THEN TRUE ELSE PrintT("@SC " \o ToJson(call))

GridOf(a) == [lo |-> Milli(a.o), delta |-> Milli(a.d), m |-> a.m]
Grids(axs) == [i \in 1 .. Len(axs) |-> GridOf(axs[i])]
RowsOf(axs, X) == TLCEval([i \in 1 .. Len(X) |->
    DenseRow(Grids(axs), WeightsOf(Grids(axs), Millis(X[i])))])

(* Design: weights sum to one; inside, polynomials up to degree two are    *)
(* reproduced.                                                             *)
Poly(e, x) == FPow(x, e)
InsideAxis(a, x) == x >= a.o + a.d /\ x <= a.o + (a.m - 2) * a.d
WeightLaws ==
  call # Nil => \A d \in 1 .. Len(xs) : \A i \in 1 .. Len(xs[d]) :
    LET gs == Grids(axes)
        ws == WeightsOf(gs, Millis(xs[d][i]))
        at(c, p) == AxisPoint(gs[p], ws[c][1][p])
        inside == \A p \in 1 .. Len(axes) : InsideAxis(axes[p], xs[d][i][p])
    IN /\ FNear(FSum([c \in 1 .. Len(ws) |-> ws[c][2]]), F1, Tol, F0)
       /\ inside => \A p \in 1 .. Len(axes), e \in 1 .. 2 :
            FNear(FSum([c \in 1 .. Len(ws) |-> FMul(ws[c][2], Poly(e, at(c, p)))]),
                  Poly(e, Milli(xs[d][i][p])), Tol, Tol)
=============================================================================
