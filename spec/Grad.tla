-------------------------------- MODULE Grad --------------------------------
(* C06: derivatives of the log likelihood, exact and with random probes.   *)
EXTENDS ModelGen
CONSTANTS Its
VARIABLE call
vars == <<phase, g, call>>

(* parameters: a sequence of [k, q, i, j]: vec (q, row, column), diag      *)
(* (q, output), kern (q, parameter), noise (output)                        *)
ParamsOf(M) ==
  Flatten([q \in 1 .. Len(M.terms) |->
     Flatten([r \in 1 .. Len(M.terms[q].A) |->
        [j \in 1 .. M.D |-> [k |-> "vec", q |-> q, i |-> r, j |-> j]]])])
  \o Flatten([q \in 1 .. Len(M.terms) |->
        [i \in 1 .. M.D |-> [k |-> "diag", q |-> q, i |-> i, j |-> 0]]])
  \o Flatten([q \in 1 .. Len(M.terms) |->
        [i \in 1 .. NPar(M.terms[q].kern) |-> [k |-> "kern", q |-> q, i |-> i, j |-> 0]]])
  \o [i \in 1 .. M.D |-> [k |-> "noise", q |-> 0, i |-> i, j |-> 0]]
DK(M, C, approx, p) ==
  CASE p.k = "vec" -> DVec(M, C, approx, p.q, p.i, p.j)
    [] p.k = "diag" -> DDiag(M, C, approx, p.q, p.i)
    [] p.k = "kern" -> DKern(M, C, approx, p.q, p.i)
    [] p.k = "noise" -> DNoise(M, p.i)

(* the model with parameter p moved by h *)
Moved(M, p, h) ==
  CASE p.k = "vec" -> [M EXCEPT !.terms[p.q].A[p.i][p.j] = FAdd(@, h)]
    [] p.k = "diag" -> [M EXCEPT !.terms[p.q].kap[p.i] = FAdd(@, h)]
    [] p.k = "kern" -> [M EXCEPT !.terms[p.q].kern =
          KWith(@, [KParams(@) EXCEPT ![p.i] = FAdd(@, h)])]
    [] p.k = "noise" -> [M EXCEPT !.noise[p.i] = FAdd(@, h)]
ExactLL(M) ==
  LET K == Covariance(M, Coregs(M), TermMats(M, FALSE, <<>>))
      s == SolveMat(K, [i \in 1 .. Len(M.y) |-> <<M.y[i]>>])
  IN LogLik(Len(M.y), LogDet(s.piv), FSum([i \in 1 .. Len(M.y) |-> FMul(M.y[i], s.x[i][1])]))
(* Design: the formulas are the derivatives, by central differences.       *)
H == FRat(1, 10000)
FormulasAreDerivatives ==
  (phase = "ready" /\ call = Nil /\ ~Sim) =>
   LET M == ModelOf(g)
       C == Context(M)
       ps == ParamsOf(M)
   IN \A i \in 1 .. Len(ps) :
        FNear(FDiv(FSub(ExactLL(Moved(M, ps[i], H)), ExactLL(Moved(M, ps[i], FNeg(H)))), FMul(F2, H)),
              DLik(C, DK(M, C, FALSE, ps[i])), TolM, TolM)

Fire == /\ phase = "ready" /\ call = Nil
        /\ \E it \in Pick(Its) : call' = [r |-> g, it |-> it]
        /\ phase' = "done" /\ UNCHANGED g
NPts == LET f[i \in 0 .. Len(g.X)] == IF i = 0 THEN 0 ELSE f[i - 1] + Len(g.X[i]) IN f[Len(g.X)]
Fits == IF phase = "ready" THEN NPts <= 6 ELSE TRUE
Init == GInit /\ call = Nil
Next == (Build /\ UNCHANGED call) \/ Fire
Emit == IF call = Nil THEN TRUE ELSE PrintT("@SC " \o ToJson(call))
=============================================================================
