---------------------------- MODULE CovarTrace ----------------------------
(* Covariances and likelihoods returned by real models.                    *)
EXTENDS Covar, TraceData
VARIABLES t, l, M, C

ProbeV(s, n) == [i \in 1 .. n |-> FInt(((i * i * 7 + s * 11 + i * s * 3) % 7) - 3)]
Verdict(m, c, e) ==
  LET n == Len(m.pts) IN
  CASE e.op = "shape" -> Clause("operator_shape", IsList(e.o) /\ Len(e.o.v) = 2
                              /\ IsInt(e.o.v[1], n) /\ IsInt(e.o.v[2], n))
    [] e.op = "opvec" -> Clause("operator_product", ArrIsVec(e.o, MatVec(c.Ks, ProbeV(e.s, n)), Tol, Tol))
    [] e.op = "linop" -> Clause("operator_view", ArrIsVec(e.o, MatVec(c.Ks, ProbeV(e.s, n)), Tol, Tol))
    [] e.op = "op" -> Clause("operator_dense", ArrIsMat(e.o, c.Ks, n, Tol, Tol))
    [] e.op = "K" -> Clause("K", ArrIsMat(e.o, c.Kx, n, Tol, Tol))
    [] e.op = "cross" -> Clause("kernel_from_indices", ArrIsMat(e.o,
           SymMat(n, LAMBDA i, j : IF i = j THEN FSub(c.Kx[i][i], m.noise[m.pts[i].d]) ELSE c.Kx[i][j]),
           n, Tol, Tol))
    [] e.op = "logdet" -> Clause("log_det", NumIs(e.o, c.logdet, Tol, Tol))
    [] e.op = "quad" -> Clause("normal_quadratic", (e.crit /\ n > 40) \/ NumIs(e.o, QuadS(m, c), QuadTol(c, e.crit), TolM))
    (* e.q: the quadratic form the model reports *)
    [] e.op \in {"ll", "obj"} -> Clause(IF e.op = "ll" THEN "log_likelihood" ELSE "objective",
           IF e.crit /\ n > 40 THEN NumIs(e.o, LogLik(n, c.logdet, e.q.v), TolM, TolM)
           ELSE NumIs(e.o, LL(m, c), QuadTol(c, e.crit), TolM))
    [] OTHER -> {"terminates_normally"}

TInit == /\ t \in 1 .. Len(Traces) /\ l = 0 /\ M = Nil /\ C = Nil
         /\ phase = "trace" /\ g = Nil /\ call = Nil
TNext == /\ l < Len(Traces[t].ev)
         /\ M' = IF l = 0 THEN ModelOf(Traces[t].sc.r) ELSE M
         /\ C' = IF l = 0 THEN Context(M') ELSE C
         /\ LET b == TLCEval(Verdict(M', C', Traces[t].ev[l + 1]))
            IN Report(t, l + 1, b)
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, phase, g, call>>
=============================================================================
