------------------------------- MODULE Covar -------------------------------
(* C04, C05: the covariance of every functional kernel.  Design: the three *)
(* internal representations of the grid covariance denote the same matrix. *)
EXTENDS ModelGen
VARIABLE call
vars == <<phase, g, call>>

(* Integer versions, for exact design checking: term q with coregional-    *)
(* ization vectors A (rank x D), diagonal kap and grid table T (m x m)     *)
IA(t) == [r \in 1 .. Len(t.A) |-> [d \in 1 .. Len(t.kap) |-> t.A[r][d]]]
SumI(s) == LET f[i \in 0 .. Len(s)] == IF i = 0 THEN 0 ELSE f[i - 1] + s[i] IN f[Len(s)]
IB(t, a, b) == SumI([r \in 1 .. Len(t.A) |-> t.A[r][a] * t.A[r][b]])
               + (IF a = b THEN t.kap[a] ELSE 0)
Tab(q, u, v) == 1 + (Hash(q, Abs(u - v), 3) % 5)        \* symmetric Toeplitz table
GM == 2                                                 \* grid points
KronSum(ts, a, u, b, v) == SumI([q \in 1 .. Len(ts) |-> IB(ts[q], a, b) * Tab(q, u, v)])
(* block Toeplitz: one table per pair of outputs, lower triangle mirrored *)
BlockToep(ts, a, u, b, v) ==
  LET i == IF a <= b THEN a ELSE b
      j == IF a <= b THEN b ELSE a
  IN SumI([q \in 1 .. Len(ts) |-> Tab(q, u, v) * IB(ts[q], i, j)])
(* rank-one decomposition: vectors stacked, diagonals gathered *)
Slfm(ts, a, u, b, v) ==
  LET ni == {q \in 1 .. Len(ts) : ts[q].kind # "indep"}
  IN SumI([q \in 1 .. Len(ts) |-> IF q \in ni
       THEN SumI([r \in 1 .. Len(ts[q].A) |-> ts[q].A[r][a] * Tab(q, u, v) * ts[q].A[r][b]]) ELSE 0])
   + (IF a = b THEN SumI([q \in 1 .. Len(ts) |-> ts[q].kap[a] * Tab(q, u, v)]) ELSE 0)
Small(t) == [t EXCEPT !.A = [r \in 1 .. Len(t.A) |-> [d \in 1 .. Len(t.kap) |-> t.A[r][d] % 7]],
                      !.kap = [d \in 1 .. Len(t.kap) |-> t.kap[d] % 11]]
RepresentationsAgree ==
  (phase = "ready" /\ call = Nil) =>
  LET ts == TLCEval([q \in 1 .. Len(g.terms) |-> Small(g.terms[q])]) IN
  \A a \in 1 .. g.D, b \in 1 .. g.D, u \in 1 .. GM, v \in 1 .. GM :
     LET k == KronSum(ts, a, u, b, v)
     IN k = BlockToep(ts, a, u, b, v) /\ k = Slfm(ts, a, u, b, v)
        /\ k = KronSum(ts, b, v, a, u)

Fire == /\ phase = "ready" /\ call = Nil
        /\ call' = [r |-> g] /\ phase' = "done" /\ UNCHANGED g
Init == GInit /\ call = Nil
Next == (Build /\ UNCHANGED call) \/ Fire
Emit == IF call = Nil THEN TRUE ELSE PrintT("@SC " \o ToJson(call))
=============================================================================
