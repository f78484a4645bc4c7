----------------------------- MODULE FKernTrace -----------------------------
EXTENDS FKern, TraceData
VARIABLES t, l
ListOf(o, n, Q(_, _)) == IsList(o) /\ Len(o.v) = n /\ \A i \in 1 .. n : Q(o.v[i], i)
IntsAre(o, s) == ListOf(o, Len(s), LAMBDA x, i : IsInt(x, s[i]))
(* a dictionary, encoded as a list of pairs sorted by key *)
DictOf(o, keys, Q(_, _)) == ListOf(o, Len(keys), LAMBDA x, i :
   IsList(x) /\ Len(x.v) = 2 /\ IntsAre(x.v[1], keys[i]) /\ Q(x.v[2], keys[i]))
MatsAre(sc, s, o, A, idx) == ListOf(o, Len(idx), LAMBDA x, i :
   ArrIsMat(x, BMat(sc.D, A[idx[i]], Millis(s.kap[idx[i]])), sc.D, Tol, Tol))
MillisRows(R) == TLCEval([r \in 1 .. Len(R) |-> Millis(R[r])])
Zero1(s) == [i \in 1 .. Len(s) |-> s[i] - 1]
ReadV(sc, s, e) ==
  LET Q == Len(sc.terms)
      all == [q \in 1 .. Q |-> q]
      shapeok(q) == FinArr(e.vecs.v[q], << Len(sc.terms[q].A), sc.D >>)
      vok == ListOf(e.vecs, Q, LAMBDA x, q : shapeok(q) /\
               (s.A[q] # <<>> => ArrIsMat(x, MillisRows(s.A[q]), sc.D, Tol, Tol)))
      A == TLCEval([q \in 1 .. Q |-> IF s.A[q] # <<>> THEN MillisRows(s.A[q]) ELSE MatOf(e.vecs.v[q])])
      keys == AdSeq(sc)
      NonI(idx) == SelectSeq(idx, LAMBDA q : sc.terms[q].kind # "indep")
  IN
  Clause("Q_and_D", IsInt(e.Q, Q) /\ IsInt(e.D, sc.D))
  \cup Clause("coregionalization_vectors", vok)
  \cup Clause("coregionalization_diagonals", ListOf(e.diags, Q, LAMBDA x, q : ArrIsVec(x, Millis(s.kap[q]), Tol, Tol)))
  \cup Clause("noise", ArrIsVec(e.noise, Millis(s.noise), Tol, Tol))
  \cup Clause("coregionalization_matrices", vok => MatsAre(sc, s, e.mats, A, all))
  \cup Clause("non_independent_terms", IntsAre(e.nonindep, Zero1(NonI(all))))
  \cup (IF s.P = 0 THEN {} ELSE
    Clause("input_dimension", IsInt(e.P, s.P))
    \cup Clause("active_dimensions", DictOf(e.ads, keys, LAMBDA x, ad : IntsAre(x, Zero1(Idxs(sc, ad)))))
    \cup Clause("active_dimensions_per_term", ListOf(e.adq, Q, LAMBDA x, q : IntsAre(x, AdOf(sc, q))))
    \cup Clause("counts_lmc", DictOf(e.nl, keys, LAMBDA x, ad : IsInt(x, CountOf(sc, ad, "lmc"))))
    \cup Clause("counts_slfm", DictOf(e.ns, keys, LAMBDA x, ad : IsInt(x, CountOf(sc, ad, "slfm"))))
    \cup Clause("counts_indep", DictOf(e.ni, keys, LAMBDA x, ad : IsInt(x, CountOf(sc, ad, "indep"))))
    \cup Clause("total_rank", DictOf(e.tr, keys, LAMBDA x, ad : IsInt(x, SumRank(sc, Idxs(sc, ad)))))
    \cup Clause("matrices_per_active_dimension", vok => DictOf(e.matsad, keys, LAMBDA x, ad : MatsAre(sc, s, x, A, Idxs(sc, ad))))
    \cup Clause("non_independent_terms_per_active_dimension",
                DictOf(e.nonindepad, keys, LAMBDA x, ad : IntsAre(x, Zero1(NonI(Idxs(sc, ad)))))))
PosOf(keys, ad) == CHOOSE i \in 1 .. Len(keys) : keys[i] = ad
SlackK == FRat(1, 10000000)
ValsOk(o, ds, F(_)) == FinArr(o, <<Len(ds)>>) /\ \A j \in 1 .. Len(ds) : FNear(o.v[j], F(Milli(ds[j])), SlackK, SlackK)
FreeOf(sc) == FoldLeft(LAMBDA acc, q :
    acc + (IF sc.terms[q].kind = "indep" THEN 0 ELSE Len(sc.terms[q].A) * sc.D)
        + (IF sc.terms[q].kind = "lmc" THEN sc.D ELSE 0)
        + Len(sc.terms[q].kern.p) + Len(sc.terms[q].kern.s), sc.D, [q \in 1 .. Len(sc.terms) |-> q])
(* moved upwards, strictly *)
Rises(o, v) == FinArr(o, <<Len(v)>>) /\ \A i \in 1 .. Len(v) : FLt(FAdd(v[i], Tol3), o.v[i])
Verdict(sc, s, e) ==
  LET Q == Len(sc.terms)
      keys == AdSeq(sc)
  IN
  CASE e.op = "dim" -> IF s.P \in {0, e.P} THEN Clause("dimension_accepted", e.o.k = "none")
                       ELSE Clause("second_dimension_rejected", RaisesA(e.o, "ValueError"))
    [] e.op \in {"vecs", "diags", "noise", "kset"} -> Clause("write_accepted", e.o.k = "none")
    [] e.op = "read" -> IF e.o.k # "none" THEN {"read"} ELSE ReadV(sc, s, e)
    [] e.op = "eval" -> Clause("kernels_evaluated_in_order", ListOf(e.o, Q, LAMBDA x, q :
         ValsOk(x, e.d[PosOf(keys, AdOf(sc, q))], LAMBDA d : KEval(KernAt(sc, s, q), d))))
    [] e.op = "grad" -> Clause("kernel_gradients_in_order", ListOf(e.o, Q, LAMBDA x, q :
         ListOf(x, Len(s.kp[q]), LAMBDA y, i :
           ValsOk(y, e.d[PosOf(keys, AdOf(sc, q))], LAMBDA d : KGrad(KernAt(sc, s, q), d)[i]))))
    [] e.op = "evalfix" ->
         LET idx == Idxs(sc, e.ad)
             ds == e.d[PosOf(keys, e.ad)]
         IN Clause("kernels_of_active_dimension", FinArr(e.o, <<Len(idx), Len(ds)>>) /\
              \A i \in 1 .. Len(idx) : \A j \in 1 .. Len(ds) :
                FNear(e.o.v[(i - 1) * Len(ds) + j], KEval(KernAt(sc, s, idx[i]), Milli(ds[j])), SlackK, SlackK))
    [] e.op = "upd" ->
         IF e.o.k # "none" THEN {"gradient_accepted"} ELSE
         Clause("gradient_vectors", ListOf(e.ga, Q, LAMBDA x, q : IF sc.terms[q].kind = "indep" THEN x.k = "none"
               ELSE ArrIsMat(x, MkMat(Len(sc.terms[q].A), sc.D, LAMBDA r, d : FInt(UpdA(e.s, q, r, d))), sc.D, Tol, Tol)))
         \cup Clause("gradient_diagonals", ListOf(e.gk, Q, LAMBDA x, q : IF sc.terms[q].kind # "lmc" THEN x.k = "none"
               ELSE ArrIsVec(x, Vec(sc.D, LAMBDA d : FInt(UpdKap(e.s, q, d))), Tol, Tol)))
         \cup Clause("gradient_kernels", ListOf(e.gp, Q, LAMBDA x, q :
               ArrIsVec(x, Vec(Len(s.kp[q]), LAMBDA i : FInt(UpdK(e.s, q, i))), Tol, Tol)))
         \cup Clause("gradient_noise", ArrIsVec(e.gn, Vec(sc.D, LAMBDA d : FInt(UpdNoise(e.s, d))), Tol, Tol))
    [] e.op = "nudge" ->       \* every optimized value steps up by one half
         Clause("number_of_optimized_values", IsInt(e.n, FreeOf(sc)))
         \cup Clause("optimized_noise", Rises(e.noise, Millis(s.noise)))
         \cup Clause("optimized_kernels", ListOf(e.kp, Q, LAMBDA x, q : Rises(x, Millis(s.kp[q]))))
         \cup Clause("optimized_vectors", ListOf(e.vecs, Q, LAMBDA x, q :
               IF sc.terms[q].kind = "indep" THEN ArrIsMat(x, << [d \in 1 .. sc.D |-> F0] >>, sc.D, Tol, Tol)
               ELSE s.A[q] # <<>> => ArrIsMat(x, MatAdd(MillisRows(s.A[q]),
                      MkMat(Len(s.A[q]), sc.D, LAMBDA r, d : FHalf)), sc.D, Tol, Tol)))
         \cup Clause("optimized_diagonals", ListOf(e.diags, Q, LAMBDA x, q :
               IF sc.terms[q].kind = "lmc" THEN Rises(x, Millis(s.kap[q]))
               ELSE ArrIsVec(x, Millis(s.kap[q]), Tol, Tol)))
    [] OTHER -> {"terminates_normally"}
TInit == t \in 1 .. Len(Traces) /\ l = 0 /\ phase = "" /\ g = Nil /\ ops = <<>>
         /\ st = St0(Traces[t].sc.D, Traces[t].sc.terms)
TNext == /\ l < Len(Traces[t].ev)
         /\ LET e == Traces[t].ev[l + 1]
            IN /\ Report(t, l + 1, TLCEval(Verdict(Traces[t].sc, st, e)))
               /\ st' = Apply(st, e)
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, phase, g, ops>>
=============================================================================
