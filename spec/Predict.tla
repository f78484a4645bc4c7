------------------------------ MODULE Predict ------------------------------
(* C07, C09: queries against a model.  A batch holds one sequence of rows  *)
(* per output, possibly empty; rows are training inputs, points inside the *)
(* data's range or points beyond it.                                       *)
EXTENDS ModelGen
CONSTANTS Modes, QCounts, MaxBatches, QuantSets
VARIABLES call, qs
vars == <<phase, g, call, qs>>

Row(kind, d, i) ==
  CASE kind = "train" -> LET e == Num(1, g.D, d, i, 3)
                             k == Num(1, Len(g.X[e]), i, d, 9)
                         IN TLCEval(g.X[e][k])
    [] kind = "in"  -> TLCEval([p \in 1 .. g.P |-> Num(0, 6000, d, i, p + 20)])
    [] kind = "out" -> TLCEval([p \in 1 .. g.P |-> Num(-4000, 11000, d, i, p + 40)])
    [] kind = "far" -> TLCEval([p \in 1 .. g.P |-> Num(20000, 30000, d, i, p + 60)])
Kind(d, i) == IF Sim THEN RandomElement({"train", "in", "in", "out", "far"})
              ELSE CASE (d + i) % 3 = 0 -> "train" [] (d + i) % 3 = 1 -> "in" [] OTHER -> "out"
Batch(c) == TLCEval([d \in 1 .. g.D |-> TLCEval([i \in 1 .. c[d] |-> Row(Kind(d, i), d, i)])])
AddBatch == /\ phase = "ready" /\ call = Nil /\ Len(qs) < MaxBatches
            /\ LET c == TLCEval([d \in 1 .. g.D |-> IF Sim THEN RandomElement(QCounts)
                                                    ELSE (d * 2 + Len(qs)) % 3])
               IN qs' = Append(qs, Batch(c))
            /\ UNCHANGED <<phase, g, call>>
(* part of an earlier batch again, reversed, next to new points *)
Again == /\ phase = "ready" /\ call = Nil /\ qs # <<>> /\ Len(qs) < MaxBatches
         /\ LET b == qs[Len(qs)]
                rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
            IN qs' = Append(qs, TLCEval([d \in 1 .. g.D |->
                     TLCEval(IF d % 2 = 1 THEN rev(b[d]) ELSE b[d] \o << Row("in", d, 77) >>)]))
         /\ UNCHANGED <<phase, g, call>>
Fire == /\ phase = "ready" /\ call = Nil /\ Len(qs) = MaxBatches
        /\ \E mode \in Pick(Modes), qt \in Pick(QuantSets) :
             call' = [r |-> g, mode |-> mode, qs |-> qs, qt |-> qt,
                      a |-> TLCEval([d \in 1 .. g.D |-> IF Sim THEN RandomElement({1, 20, 700, 1000, 3000, 250000}) ELSE 500 * d]),
                      b |-> TLCEval([d \in 1 .. g.D |-> Num(-900000, 900000, d, 5, 6)]),
                      u |-> TLCEval([d \in 1 .. g.D |-> Num(-10, 8, d, 6, 6)])]
        /\ phase' = "done" /\ UNCHANGED <<g, qs>>
Init == GInit /\ call = Nil /\ qs = <<>>
Next == (Build /\ UNCHANGED <<call, qs>>) \/ AddBatch \/ Again \/ Fire
Emit == IF call = Nil THEN TRUE ELSE PrintT("@SC " \o ToJson(call))

-----------------------------------------------------------------------------
(* Design, checked on small models: without interpolation error, that is,  *)
(* at inputs on grid points, all modes agree with the posterior; here the  *)
(* weaker facts that hold for any grid are checked: the explained variance *)
(* is never negative, and the exact mode never explains more than the      *)
(* prior variance of the latent function.                                  *)
PosteriorSane ==
  (call # Nil /\ ~Sim /\ call.mode = "exact") =>
  LET M == ModelOf(g)
      C == Context(M)
      Tb == Tables(M)
      zs == PtsOf(qs[1])
  IN \A i \in 1 .. Len(zs) :
       /\ FLe(FNeg(Tol), Explained(M, C, Tb, "exact", zs[i]))
       /\ FLe(Explained(M, C, Tb, "exact", zs[i]),
              FAdd(Tol, FSub(Native(M, C, zs[i].d), M.noise[zs[i].d])))
       /\ FLe(FNeg(Tol), Explained(M, C, Tb, "on-the-fly", zs[i]))
=============================================================================
