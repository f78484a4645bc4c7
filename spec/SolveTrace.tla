----------------------------- MODULE SolveTrace -----------------------------
EXTENDS Solve, TraceData
VARIABLES t, l
MaxAbs(K) == LET f[i \in 1 .. Len(K)] == IF i = 1 THEN FAbs(K[1][1]) ELSE FMax(f[i - 1], FAbs(K[i][i])) IN f[Len(K)]
(* Norm2 loses entries below 1e-7 (their squares are below the resolution) *)
Big6 == FInt(1000000)
FineNorm(v) == IF \A i \in 1 .. Len(v) : FLt(FAbs(v[i]), FRat(1, 100))
               THEN FDiv(Norm2([i \in 1 .. Len(v) |-> FMul(Big6, v[i])]), Big6) ELSE Norm2(v)
Verdict(s, e) ==
  CASE e.op = "solve" ->
    LET n == s.n
        K == DenseK(s)
        y == TLCEval([i \in 1 .. n |-> FInt(s.y[i])])
        vec == FinArr(e.x, <<n>>)
        res == FineNorm(VecSub(y, MatVec(K, e.x.v)))
        (* floating point evaluation of y - K x, in the code and by the reader *)
        eps == FMul(FRat(1, 10000000), FMul(FRat(1, 100000), FAdd(F1, FMul(FInt(n),
                 FMul(MaxAbs(K), FAdd(F1, Norm2(e.x.v)))))))
        slack == FAdd(FMul(FRat(1, 100000), res), FAdd(eps, FMul(FRat(1, 1000000), FRat(1, 1000000))))
        within == FLe(res, FAdd(TolOf(s), slack))
    IN Clause("returns_vector", vec)
       \cup (IF ~vec THEN {} ELSE
         Clause("accurate_or_logged", within \/ e.logged > 0)
         \cup Clause("logged_residual", (e.logged > 0) =>
                \E i \in 1 .. Len(e.nums) : FNear(e.nums[i], res, FAdd(slack, eps), FRat(1, 1000)))
         \cup (IF ~s.verbose THEN {} ELSE
           Clause("verbose_error", e.err.k = "num" /\ e.err.fin /\ FNear(e.err.v, res, slack, FRat(1, 1000)))
           \cup Clause("verbose_count", e.ctr.k = "int" /\ e.ctr.v >= 0 /\ e.ctr.v <= n
                   /\ e.ctr.v <= e.prods /\ e.prods <= e.ctr.v + (e.ctr.v \div 50) + 8)
           (* the methods stop by themselves at 1e-10 relative to the size of *)
           (* the system; stopping on a multiple of 100 is the early stop     *)
           \cup Clause("early_stop_within_tolerance",
                  (e.ctr.k = "int" /\ e.ctr.v > 0 /\ e.ctr.v < n /\ e.ctr.v % 100 = 0
                     /\ FLe(FMul(Tol, FMul(MaxAbs(K), FAdd(F1, Norm2(e.x.v)))), TolOf(s))
                     /\ FLe(FMul(FRat(1, 10000000), Norm2(y)), TolOf(s)))
                  => within)
           \cup Clause("quiet_when_converged",
                  (e.ctr.k = "int" /\ e.ctr.v < n /\ FLe(FAdd(res, slack), TolOf(s))) => e.logged = 0)))
       \cup Clause("rhs_unmodified", e.same)
    [] OTHER -> {"terminates_normally"}
TInit == t \in 1 .. Len(Traces) /\ l = 0 /\ Init
TNext == /\ l < Len(Traces[t].ev)
         /\ Report(t, l + 1, TLCEval(Verdict(Traces[t].sc, Traces[t].ev[l + 1])))
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, loop, sys>>
=============================================================================
