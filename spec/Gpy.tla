-------------------------------- MODULE Gpy --------------------------------
(***************************************************************************)
(* C20: the GPy wrapper.  A dense LMC model on one-dimensional inputs: a   *)
(* history of parameter settings, likelihood reads, predictions and        *)
(* quantiles, each for queries with some outputs possibly empty.           *)
(***************************************************************************)
EXTENDS ModelGen
CONSTANTS MaxOps, QCounts, QuantSets
VARIABLES ops
vars == <<phase, g, ops>>
Quants(q) == CASE q = "def" -> <<25, 975>> [] q = "one" -> <<500>>
               [] q = "many" -> <<10, 50, 250, 750, 990>> [] q = "rev" -> <<975, 500, 25, 25>>
Init == GInit /\ ops = <<>>
Gen == Build /\ UNCHANGED ops
Live == phase = "ready" /\ Len(ops) < MaxOps
NewTerms(k) == TLCEval([q \in 1 .. Len(g.terms) |-> TLCEval(
    TermOf(g.D, "lmc", KernOf(g.terms[q].kern.t, FALSE, k + q, q), g.terms[q].ad, Len(g.terms[q].A), 1, k * 5 + q))])
Params == /\ Live /\ \E ts \in {NewTerms(Len(ops))}, nz \in {TLCEval([d \in 1 .. g.D |-> Num(50, 900, d, 8, Len(ops))])} :
             ops' = Append(ops, [op |-> "params", terms |-> ts, noise |-> nz])
          /\ UNCHANGED <<phase, g>>
Row(d, i) == << IF Num(1, 3, d, i, Len(ops)) = 1 THEN g.X[1][1][1] ELSE Num(-2000, 8000, d, i, 20 + Len(ops)) >>
CountSeq == TLCEval([d \in 1 .. g.D |-> IF Sim THEN RandomElement(QCounts) ELSE (d * 2 + Len(ops)) % 3])
(* at least one query in all *)
Some(c) == IF \E d \in 1 .. g.D : c[d] > 0 THEN c ELSE [c EXCEPT ![g.D] = 1]
Query == /\ Live /\ \E f \in Pick({"predict", "quant"}), qt \in Pick(QuantSets), c0 \in {CountSeq} :
            \E b \in {LET c == Some(c0) IN TLCEval([d \in 1 .. g.D |-> TLCEval([i \in 1 .. c[d] |-> TLCEval(Row(d, i))])])} :
             ops' = Append(ops, [op |-> f, X |-> b, qt |-> qt])
         /\ UNCHANGED <<phase, g>>
Lik == Live /\ ops' = Append(ops, [op |-> "ll"]) /\ UNCHANGED <<phase, g>>
Fire == phase = "ready" /\ Len(ops) = MaxOps /\ phase' = "fired" /\ UNCHANGED <<g, ops>>
Next == Gen \/ Params \/ Query \/ Lik \/ Fire
Emit == IF phase = "fired" THEN PrintT("@SC " \o ToJson([r |-> g, ops |-> ops])) ELSE TRUE

-----------------------------------------------------------------------------
(* the dense model *)
DenseModel(r, terms, noise) ==
  TLCEval([P |-> r.P, D |-> r.D, terms |-> TLCEval([q \in 1 .. Len(terms) |-> TermM(r.P, terms[q])]),
           noise |-> Millis(noise), pts |-> PtsOf(r.X), y |-> YOf(r)])
DenseCtx(M) ==
  LET n == Len(M.pts)
      Bs == Coregs(M)
      Kx == Covariance(M, Bs, TermMats(M, FALSE, <<>>))
      s == SolveMat(Kx, Eye(n))
  IN TLCEval([Bs |-> Bs, Kx |-> Kx, ix |-> s.x, ax |-> MatVec(s.x, M.y), ld |-> TLCEval(LogDet(s.piv))])
DMean(M, C, z) == FDot(CrossExact(M, C, z), C.ax)
DVar(M, C, z) == FSub(Native(M, C, z.d), Quad(C.ix, CrossExact(M, C, z)))
DLL(M, C) == LogLik(Len(M.pts), C.ld, FDot(M.y, C.ax))
(* Design: the posterior variance lies between the noise and the prior.    *)
Sane == (phase = "fired" /\ ~Sim) =>
  LET M == DenseModel(g, g.terms, g.noise)
      C == DenseCtx(M)
  IN \A k \in 1 .. Len(ops) : ops[k].op = "predict" =>
       LET zs == PtsOf(ops[k].X) IN \A i \in 1 .. Len(zs) :
         /\ FLe(FSub(M.noise[zs[i].d], Tol), DVar(M, C, zs[i]))
         /\ FLe(DVar(M, C, zs[i]), FAdd(Native(M, C, zs[i].d), Tol))
=============================================================================
