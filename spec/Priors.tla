------------------------------- MODULE Priors -------------------------------
(***************************************************************************)
(* C11: priors over parameters.  A model has parameters (slots) of several *)
(* entries; each entry has a value (thousandths), may be constrained to be *)
(* positive and may have a prior.  Priors are set on a parameter or on a   *)
(* slice of it, replaced and removed; values are written; one prior object *)
(* may serve several parameters.                                           *)
(***************************************************************************)
EXTENDS Obs, Json, IOUtils, SequencesExt
CONSTANTS Layouts, PriorPool, Vals, MaxOps, Sim
VARIABLES kind,    \* "toy" or "lmc": which layout
          ent,     \* entries: [slot, v, con, pri]  (pri: index into pool, 0 none)
          pool,    \* prior descriptions in use
          v0, ops, fired
vars == <<kind, ent, pool, v0, ops, fired>>
Nil == "nil"
Milli(n) == FRat(n, 1000)
Pick(S) == PickIf(Sim, S)
(* slots: <<length, constrained from the start>>; a coregionalization      *)
(* vector, a lengthscale, a diagonal and the noise in the second case      *)
SlotsOf(k) == CASE k \in {"toy", "toy2"} -> << <<2, FALSE>>, <<1, FALSE>>, <<1, FALSE>>, <<3, FALSE>> >>
                [] k = "lmc" -> << <<2, FALSE>>, <<1, TRUE>>, <<2, TRUE>>, <<2, TRUE>> >>
RECURSIVE Offs(_, _)
Offs(sl, s) == IF s = 1 THEN 0 ELSE Offs(sl, s - 1) + sl[s - 1][1]
Total(sl) == Offs(sl, Len(sl)) + sl[Len(sl)][1]
SlotAt(sl, i) == CHOOSE s \in 1 .. Len(sl) : Offs(sl, s) < i /\ i <= Offs(sl, s) + sl[s][1]
PoolMC == { [t |-> "gauss", a |-> 500, b |-> 2000], [t |-> "gamma", a |-> 2500, b |-> 1500],
            [t |-> "igamma", a |-> 3000, b |-> 2000], [t |-> "hlap", a |-> 700, b |-> 0] }
PoolSim == PoolMC \cup
          { [t |-> "gauss", a |-> -3000, b |-> 100], [t |-> "gamma", a |-> 500, b |-> 20000],
            [t |-> "gamma", a |-> 12000, b |-> 300], [t |-> "gammaEV", a |-> 2000, b |-> 1500],
            [t |-> "igamma", a |-> 700, b |-> 100], [t |-> "hlap", a |-> 4000, b |-> 0],
            [t |-> "gauss", a |-> 0, b |-> 1000] }
Domain(p) == IF p.t = "gauss" THEN "real" ELSE "positive"
ValsMC == {-1200, 900, 2000}
ValsSim == {-20000, -1500, -800, -30, 20, 700, 1000, 3300, 20000}
AbsI(x) == IF x < 0 THEN -x ELSE x
RE(S, i) == IF Sim THEN RandomElement(S)
            ELSE LET o == SetToSortSeq(S, LAMBDA a, b : a < b) IN o[(i % Len(o)) + 1]
Init == kind = Nil /\ ent = <<>> /\ pool = <<>> /\ v0 = <<>> /\ ops = <<>> /\ fired = FALSE
Fresh(k, v) == LET sl == SlotsOf(k) IN
   [i \in 1 .. Total(sl) |-> LET s == SlotAt(sl, i) IN
      [slot |-> s, con |-> sl[s][2], pri |-> 0, v |-> IF sl[s][2] THEN AbsI(v[i]) ELSE v[i]]]
Build == /\ kind = Nil
         /\ \E k \in Pick(Layouts) :
            \E v \in {TLCEval([i \in 1 .. Total(SlotsOf(k)) |-> RE(Vals, i)])} :
              /\ kind' = k /\ ent' = Fresh(k, v) /\ v0' = [i \in 1 .. Len(v) |-> ent'[i].v]
              /\ pool' = IF Sim THEN TLCEval([i \in 1 .. 5 |-> RandomElement(PriorPool)])
                         ELSE SetToSeq(PriorPool)
         /\ UNCHANGED <<ops, fired>>
Live == kind # Nil /\ ~fired /\ Len(ops) < MaxOps
(* the effect of an operation on the entries from .. to *)
In(i, o) == i >= o.from /\ i <= o.to
Apply(E, P, o) ==
  CASE o.op = "prior" -> [i \in 1 .. Len(E) |-> IF ~In(i, o) THEN E[i] ELSE
          IF Domain(P[o.p]) = "real" THEN [E[i] EXCEPT !.pri = o.p]
          ELSE [E[i] EXCEPT !.pri = o.p, !.con = TRUE, !.v = AbsI(@)]]
    [] o.op = "unset" -> [i \in 1 .. Len(E) |-> IF In(i, o) THEN [E[i] EXCEPT !.pri = 0] ELSE E[i]]
    [] o.op = "positive" -> [i \in 1 .. Len(E) |-> IF In(i, o) THEN [E[i] EXCEPT !.con = TRUE, !.v = AbsI(@)] ELSE E[i]]
    [] o.op = "write" -> [i \in 1 .. Len(E) |-> IF In(i, o) THEN [E[i] EXCEPT !.v = o.v[i - o.from + 1]] ELSE E[i]]
    [] OTHER -> E
Do(o) == ops' = Append(ops, o) /\ ent' = Apply(ent, pool, o) /\ UNCHANGED <<kind, pool, v0, fired>>
(* a whole slot, or a slice of it *)
Ranges == LET sl == SlotsOf(kind) IN
   UNION {{[slot |-> s, from |-> Offs(sl, s) + a, to |-> Offs(sl, s) + b] :
             a \in 1 .. sl[s][1], b \in 1 .. sl[s][1]} : s \in 1 .. Len(sl)}
Proper == {r \in Ranges : r.from <= r.to}
Whole == {r \in Proper : LET sl == SlotsOf(kind) IN r.to - r.from + 1 = sl[r.slot][1]}
Targets == IF Sim /\ RandomElement(1 .. 3) = 1 THEN Proper ELSE Whole
SetPrior == /\ Live /\ \E r \in Pick(Targets), p \in Pick(1 .. Len(pool)) :
                 Do([op |-> "prior", slot |-> r.slot, from |-> r.from, to |-> r.to, p |-> p])
Unset == /\ Live /\ \E r \in Pick(Targets) : Do([op |-> "unset", slot |-> r.slot, from |-> r.from, to |-> r.to])
Positive == /\ Live /\ (Sim => RandomElement(1 .. 2) = 1)
            /\ \E r \in Pick(Whole) : Do([op |-> "positive", slot |-> r.slot, from |-> r.from, to |-> r.to])
Write == /\ Live /\ \E r \in Pick(Targets) :
            \E v \in {TLCEval([i \in 1 .. r.to - r.from + 1 |-> LET x == RE(Vals, i + Len(ops)) IN
                         IF ent[r.from + i - 1].con THEN AbsI(x) ELSE x])} :
              Do([op |-> "write", slot |-> r.slot, from |-> r.from, to |-> r.to, v |-> v])
Density == /\ Live /\ Sim /\ \E p \in Pick(1 .. Len(pool)) :
              Do([op |-> "density", p |-> p,
                  x |-> TLCEval([i \in 1 .. RandomElement({1, 2, 5}) |-> AbsI(RandomElement(Vals))])])
Fire == /\ ~fired /\ Len(ops) = MaxOps /\ fired' = TRUE /\ UNCHANGED <<kind, ent, pool, v0, ops>>
Next == Build \/ SetPrior \/ Unset \/ Positive \/ Write \/ Density \/ Fire
Emit == IF fired THEN PrintT("@SC " \o ToJson([kind |-> kind, pool |-> pool, ops |-> ops,
                   v0 |-> v0])) ELSE TRUE
-----------------------------------------------------------------------------
(* ln Gamma by Stirling's series after shifting the argument above 14      *)
RECURSIVE LnGamma(_)
LnGamma(a) ==
  IF FLt(a, FInt(14)) THEN FSub(LnGamma(TLCEval(FAdd(a, F1))), FLn(a))
  ELSE LET a2 == FSq(a)
           r == FDiv(F1, a)
       IN FAdd(FAdd(FSub(FMul(FSub(a, FHalf), FLn(a)), a), FMul(FHalf, FLn(FMul(F2, FPi)))),
               FMul(r, FAdd(FRat(1, 12), FDiv(FAdd(FRat(-1, 360), FDiv(FAdd(FRat(1, 1260),
                     FDiv(FRat(-1, 1680), a2)), a2)), a2))))
A_(p) == IF p.t = "gammaEV" THEN FDiv(FSq(Milli(p.a)), Milli(p.b)) ELSE Milli(p.a)
B_(p) == IF p.t = "gammaEV" THEN FDiv(Milli(p.a), Milli(p.b)) ELSE Milli(p.b)
LnPdf(p, x) ==
  LET a == A_(p)
      b == B_(p) IN
  CASE p.t = "gauss" -> FSub(FNeg(FMul(FHalf, FLn(FMul(FMul(F2, FPi), b)))),
                             FDiv(FMul(FHalf, FSq(FSub(x, a))), b))
    [] p.t \in {"gamma", "gammaEV"} ->
         FAdd(FSub(FMul(a, FLn(b)), LnGamma(a)), FSub(FMul(FSub(a, F1), FLn(x)), FMul(b, x)))
    [] p.t = "igamma" ->
         FSub(FSub(FMul(a, FLn(b)), LnGamma(a)), FAdd(FMul(FAdd(a, F1), FLn(x)), FDiv(b, x)))
    [] p.t = "hlap" -> FNeg(FAdd(FLn(a), FDiv(x, a)))
LnPdfGrad(p, x) ==
  LET a == A_(p)
      b == B_(p) IN
  CASE p.t = "gauss" -> FDiv(FSub(a, x), b)
    [] p.t \in {"gamma", "gammaEV"} -> FSub(FDiv(FSub(a, F1), x), b)
    [] p.t = "igamma" -> FSub(FDiv(b, FSq(x)), FDiv(FAdd(a, F1), x))
    [] p.t = "hlap" -> FNeg(FDiv(F1, a))
(* positive constraint: x = ln(1 + e^u); ln of dx/du = ln(1 - e^-x)        *)
OneMinus(x) == FSub(F1, FExp(FNeg(x)))
LnJac(x) == FLn(OneMinus(x))
LnJacGrad(x) == FDiv(FExp(FNeg(x)), OneMinus(x))
LogPrior(E, P) == FSum([i \in 1 .. Len(E) |-> IF E[i].pri = 0 THEN F0 ELSE
    LET x == Milli(E[i].v) IN
    FAdd(LnPdf(P[E[i].pri], x), IF E[i].con THEN LnJac(x) ELSE F0)])
PriorGrad(E, P) == [i \in 1 .. Len(E) |-> IF E[i].pri = 0 THEN F0 ELSE
    LET x == Milli(E[i].v) IN
    FAdd(LnPdfGrad(P[E[i].pri], x), IF E[i].con THEN LnJacGrad(x) ELSE F0)]
(* Design: the gradients are the derivatives, and positive priors sit on   *)
(* positively constrained positive entries.                                *)
FD(F(_), x) == LET h == FRat(1, 1000000) IN FDiv(FSub(F(FAdd(x, h)), F(FSub(x, h))), FAdd(h, h))
GradientsRight == (~Sim /\ kind # Nil /\ ops = <<>>) =>
  \A k \in 1 .. Len(pool) : \A v \in {300, 1000, 2700} :
     /\ FNear(FD(LAMBDA x : LnPdf(pool[k], x), Milli(v)), LnPdfGrad(pool[k], Milli(v)), Tol3, Tol3)
     /\ FNear(FD(LnJac, Milli(v)), LnJacGrad(Milli(v)), Tol3, Tol3)
DomainKept == \A i \in 1 .. Len(ent) :
   /\ ent[i].con => ent[i].v > 0
   /\ (ent[i].pri # 0 /\ Domain(pool[ent[i].pri]) = "positive") => ent[i].con
=============================================================================
