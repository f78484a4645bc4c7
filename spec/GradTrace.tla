----------------------------- MODULE GradTrace -----------------------------
(* Gradients returned by real models.  The probes are not observed: a      *)
(* model's gradient is accepted if some choice of the requested number of  *)
(* +-1 vectors explains all its components at once.                        *)
EXTENDS Grad, TraceData
VARIABLES t, l, M, C, G

(* classes of probes up to sign *)
Classes(n) == [c \in 1 .. 2 ^ (n - 1) |->
   [i \in 1 .. n |-> IF i = n THEN F1
                     ELSE IF ((c - 1) \div (2 ^ (i - 1))) % 2 = 0 THEN F1 ELSE FInt(-1)]]
SumN(s) == LET f[i \in 0 .. Len(s)] == IF i = 0 THEN 0 ELSE f[i - 1] + s[i] IN f[Len(s)]
(* per parameter: exact derivative, quadratic part, per class r'K^-1 dK r, *)
(* and the accuracy a solve of residual 1e-8 gives                         *)
GradInfo(m, c) ==
  LET ps == ParamsOf(m)
      n == Len(m.pts)
      cl == TLCEval(Classes(n))
  IN TLCEval([i \in 1 .. Len(ps) |->
       LET dx == DK(m, c, FALSE, ps[i])
           ds == DK(m, c, TRUE, ps[i])
           kd == MatMul(c.is, ds)
           fro == FSqrt(FSum([a \in 1 .. n |-> FDot(kd[a], kd[a])]))
       IN [p |-> ps[i], exact |-> DLik(c, dx), quad |-> Quad(ds, c.as),
           tr |-> TLCEval([k \in 1 .. Len(cl) |-> FDot(cl[k], MatVec(kd, cl[k]))]),
           slack |-> FAdd(FRat(1, 10000000),
                      FMul(FRat(1, 10000000), FMul(fro, FAdd(Norm2(c.as), FInt(n)))))]])
(* multisets of `it` probes as counts per class, only small cases *)
Choices(k, it) ==
  IF it = 1 THEN {[c \in {i} |-> 1] : i \in 1 .. k}
  ELSE IF it = 2 THEN {[c \in {p[1], p[2]} |-> IF p[1] = p[2] THEN 2 ELSE 1]
                          : p \in {q \in (1 .. k) \X (1 .. k) : q[1] <= q[2]}}
  ELSE IF it = 3 /\ k <= 8 THEN
     {[c \in {p[1], p[2], p[3]} |-> (IF c = p[1] THEN 1 ELSE 0) + (IF c = p[2] THEN 1 ELSE 0)
                                    + (IF c = p[3] THEN 1 ELSE 0)]
        : p \in {q \in (1 .. k) \X (1 .. k) \X (1 .. k) : q[1] <= q[2] /\ q[2] <= q[3]}}
  ELSE IF k <= 2 THEN {[c \in 1 .. 2 |-> IF c = 1 THEN j ELSE it - j] : j \in 0 .. it}
  ELSE IF k <= 4 THEN {[c \in 1 .. 4 |-> CASE c = 1 -> p[1] [] c = 2 -> p[2] [] c = 3 -> p[3]
                                          [] c = 4 -> it - p[1] - p[2] - p[3]]
        : p \in {q \in (0 .. it) \X (0 .. it) \X (0 .. it) : q[1] + q[2] + q[3] <= it}}
  ELSE {}
Enumerable(k, it) == it <= 2 \/ (it = 3 /\ k <= 8) \/ k <= 4
RECURSIVE SetSum(_, _, _)
SetSum(S, ch, tr) == IF S = {} THEN F0 ELSE
   LET c == CHOOSE x \in S : TRUE IN FAdd(FMul(FInt(ch[c]), tr[c]), SetSum(S \ {c}, ch, tr))
Val(gi, ch, it) == FMul(FHalf, FSub(gi.quad, FDiv(SetSum(DOMAIN ch, ch, gi.tr), FInt(it))))
(* obs: flat sequence of components for the parameters idx *)
Explains(gs, idx, ch, it, obs) ==
  \A j \in 1 .. Len(idx) : FNear(obs[j], Val(gs[idx[j]], ch, it), gs[idx[j]].slack, FRat(1, 10000000))
(* without enumeration: the trace term is bounded by its extremes *)
Within(gs, idx, obs) ==
  \A j \in 1 .. Len(idx) :
     LET gi == gs[idx[j]]
         lo == FMul(FHalf, FSub(gi.quad, MaxOf(gi.tr)))
         hi == FMul(FHalf, FSub(gi.quad, MinOf(gi.tr)))
     IN FLe(FSub(lo, gi.slack), obs[j]) /\ FLe(obs[j], FAdd(hi, gi.slack))
(* parameters the model optimizes *)
Free(m, gs) == LET ok(i) == LET p == gs[i].p IN
                     CASE p.k = "vec" -> m.terms[p.q].kind # "indep"
                       [] p.k = "diag" -> m.terms[p.q].kind = "lmc"
                       [] OTHER -> TRUE
               IN SelectSeq([i \in 1 .. Len(gs) |-> i], ok)
All(gs) == [i \in 1 .. Len(gs) |-> i]
ExactSeq(gs) == [i \in 1 .. Len(gs) |-> gs[i].exact]

Verdict(sc, m, gs, e) ==
  LET k == 2 ^ (Len(m.pts) - 1) IN
  CASE e.op = "exact" -> Clause("exact_gradient", ArrIsVec(e.o, ExactSeq(gs), TolM, TolM))
    [] e.op \in {"model", "kernel"} ->
        LET idx == IF e.op = "model" THEN Free(m, gs) ELSE All(gs) IN
        Clause(e.op \o "_gradient", FinArr(e.o, <<Len(idx)>>)
           /\ (e.crit \/ IF Enumerable(k, sc.it)
                         THEN \E ch \in Choices(k, sc.it) : Explains(gs, idx, ch, sc.it, e.o.v)
                         ELSE Within(gs, idx, e.o.v)))
    [] e.op = "fresh" ->       \* one array per update, same parameters
        (* the share of probe classes giving the most frequent value of    *)
        (* the most informative component                                  *)
        LET share(gi) == LET cnt(a) == Cardinality({b \in 1 .. k : FNear(gi.tr[a], gi.tr[b], FRat(1, 100000), F0)})
                         IN CHOOSE mx \in {cnt(a) : a \in 1 .. k} : \A a \in 1 .. k : cnt(a) <= mx
            informative == \E i \in 1 .. Len(gs) : 2 * share(gs[i]) <= k
            idx == Free(m, gs)
            (* pairs of probes whose gradient a repeated probe would give too *)
            alone(a, b) == \E c \in 1 .. k : \A j \in 1 .. Len(idx) :
               LET gi == gs[idx[j]] IN
               FNear(FMul(FHalf, FAdd(gi.tr[a], gi.tr[b])), gi.tr[c], FAdd(FRat(1, 10000), FMul(FInt(4), gi.slack)), F0)
            mixed == sc.it = 2 /\ k <= 16 /\
               2 * Cardinality({p \in (1 .. k) \X (1 .. k) : ~alone(p[1], p[2])}) >= k * k
        IN Clause("probes_independent",
             e.crit \/ ~mixed \/
             (IsList(e.o) /\ \E a \in 1 .. Len(e.o.v) : IsArr(e.o.v[a]) /\
                 ~\E c \in 1 .. k : Explains(gs, idx, [x \in {c} |-> 2], 2, e.o.v[a].v)))
        \cup Clause("probes_drawn_afresh",
             e.crit \/ ~informative \/ sc.it > 2 \/
             (IsList(e.o) /\ \E a \in 1 .. Len(e.o.v), b \in 1 .. Len(e.o.v) :
                 /\ IsArr(e.o.v[a]) /\ IsArr(e.o.v[b])
                 /\ ~VecNear(e.o.v[a].v, e.o.v[b].v, FRat(1, 1000000), F0)))
    [] OTHER -> {"terminates_normally"}

TInit == /\ t \in 1 .. Len(Traces) /\ l = 0 /\ M = Nil /\ G = <<>> /\ C = Nil
         /\ phase = "trace" /\ g = Nil /\ call = Nil
TNext == /\ l < Len(Traces[t].ev)
         /\ M' = IF l = 0 THEN ModelOf(Traces[t].sc.r) ELSE M
         /\ C' = IF l = 0 THEN Context(M') ELSE C
         /\ G' = IF l = 0 THEN GradInfo(M', C') ELSE G
         /\ LET b == TLCEval(Verdict(Traces[t].sc, M', G', Traces[t].ev[l + 1]))
            IN Report(t, l + 1, b)
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, phase, g, call>>
=============================================================================
