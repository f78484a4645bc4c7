------------------------------- MODULE FKern -------------------------------
(***************************************************************************)
(* C17: the functional kernel.  A specification is a list of terms (full   *)
(* rank, rank one, independent, in that order); the state of the object is *)
(* its input dimension (0 until set), coregionalization vectors and        *)
(* diagonals, noise and kernel parameters.  Operations: setting the input  *)
(* dimension, writes, kernel evaluations, gradient updates, full reads,    *)
(* and a step of every optimized parameter at the end.                     *)
(***************************************************************************)
EXTENDS ModelGen, SequencesExt, FiniteSetsExt
CONSTANTS MaxOps
VARIABLES st, ops
vars == <<phase, g, st, ops>>
NT == Len(g.terms)
Kap0(D, t) == CASE t.kind = "lmc" -> [d \in 1 .. D |-> 1000] [] t.kind = "slfm" -> Zeros(D)
                [] t.kind = "indep" -> [d \in 1 .. D |-> IF d = t.out THEN 1000 ELSE 0]
(* the vectors of non-independent terms start at random values: <<>>       *)
St0(D, terms) ==
  [P |-> 0, A |-> [q \in 1 .. Len(terms) |-> IF terms[q].kind = "indep" THEN << Zeros(D) >> ELSE <<>>],
   kap |-> [q \in 1 .. Len(terms) |-> Kap0(D, terms[q])], noise |-> [d \in 1 .. D |-> 100],
   kp |-> [q \in 1 .. Len(terms) |-> terms[q].kern.p \o terms[q].kern.s]]
Apply(s, o) ==
  CASE o.op = "dim" -> IF s.P = 0 THEN [s EXCEPT !.P = o.P] ELSE s
    [] o.op = "vecs" -> [s EXCEPT !.A = o.v]
    [] o.op = "diags" -> [s EXCEPT !.kap = o.v]
    [] o.op = "noise" -> [s EXCEPT !.noise = o.v]
    [] o.op = "kset" -> [s EXCEPT !.kp[o.q][o.i] = o.v]
    [] OTHER -> s
Init == GInit /\ st = Nil /\ ops = <<>>
Gen == /\ Shape \/ AddTerm
       /\ UNCHANGED <<st, ops>>
Start == /\ phase = "terms" /\ g.terms # <<>>
         /\ (Sim => (RandomElement(1 .. 2) = 1 \/ NT = MaxTerms))
         /\ phase' = "run" /\ st' = St0(g.D, g.terms) /\ UNCHANGED <<g, ops>>
Live == phase = "run" /\ Len(ops) < MaxOps
Do(o) == ops' = Append(ops, o) /\ st' = Apply(st, o) /\ UNCHANGED <<phase, g>>
NewA(k) == TLCEval([q \in 1 .. NT |-> IF g.terms[q].kind = "indep" THEN << Zeros(g.D) >> ELSE
             TLCEval([r \in 1 .. Len(g.terms[q].A) |-> TLCEval([d \in 1 .. g.D |-> Num(-1500, 1500, k + q, r, d)])])])
NewKap(k) == TLCEval([q \in 1 .. NT |-> IF g.terms[q].kind # "lmc" THEN Kap0(g.D, g.terms[q]) ELSE
             TLCEval([d \in 1 .. g.D |-> Num(100, 1500, k + q, d, 3)])])
Dim == /\ Live /\ \E p \in Pick({g.P, g.P + 1}) :
            /\ (st.P = 0 => p = g.P)
            /\ Do([op |-> "dim", P |-> p])
Write == /\ Live
         /\ \E how \in Pick({"vecs", "diags", "noise"}) :
             \E v \in {CASE how = "vecs" -> NewA(Len(ops)) [] how = "diags" -> NewKap(Len(ops))
                          [] how = "noise" -> TLCEval([d \in 1 .. g.D |-> Num(50, 900, d, 8, Len(ops))])} :
               Do([op |-> how, v |-> v])
KSet == /\ Live /\ \E q \in Pick(1 .. NT) : \E i \in Pick(1 .. Len(st.kp[q])), v \in {TLCEval(Num(200, 2500, q, Len(ops), 4))} :
             Do([op |-> "kset", q |-> q, i |-> i, v |-> v])
Read == Live /\ Do([op |-> "read"])
Ads == {ResolveAd(g.terms[q].ad, g.P) : q \in 1 .. NT}
Eval == /\ Live /\ st.P # 0
        /\ \E f \in Pick({"eval", "grad", "evalfix"}), n \in Pick({1, 3}) :
            \E ad \in Pick(Ads) :
             \E ds \in {TLCEval([i \in 1 .. Cardinality(Ads) |-> TLCEval([j \in 1 .. n |->
                                  IF j = 3 THEN 0 ELSE Num(0, 3000, i, j, Len(ops))])])} :
               Do([op |-> f, ad |-> ad, d |-> ds])
Upd == /\ Live /\ st.P # 0
       /\ \E s \in Pick({1, 4, 9}) : Do([op |-> "upd", s |-> s])
Fire == /\ phase = "run" /\ Len(ops) = MaxOps /\ phase' = "fired" /\ UNCHANGED <<g, st, ops>>
Next == Gen \/ Start \/ Dim \/ Write \/ KSet \/ Read \/ Eval \/ Upd \/ Fire
Emit == IF phase = "fired"
        THEN PrintT("@SC " \o ToJson([D |-> g.D, P |-> g.P, terms |-> g.terms, ops |-> ops])) ELSE TRUE

-----------------------------------------------------------------------------
(* What a specification denotes *)
AdOf(sc, q) == ResolveAd(sc.terms[q].ad, sc.P)
AdSet(sc) == {AdOf(sc, q) : q \in 1 .. Len(sc.terms)}
RECURSIVE LexLt(_, _)
LexLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE a[1] < b[1] \/ (a[1] = b[1] /\ LexLt(Tail(a), Tail(b)))
AdSeq(sc) == SetToSortSeq(AdSet(sc), LexLt)
Idxs(sc, ad) == SetToSortSeq({q \in 1 .. Len(sc.terms) : AdOf(sc, q) = ad}, LAMBDA a, b : a < b)
CountOf(sc, ad, kind) == Cardinality({q \in 1 .. Len(sc.terms) : AdOf(sc, q) = ad /\ sc.terms[q].kind = kind})
RECURSIVE SumRank(_, _)
SumRank(sc, s) == IF s = <<>> THEN 0 ELSE SumRank(sc, Tail(s))
                  + (IF sc.terms[s[1]].kind = "indep" THEN 0 ELSE Len(sc.terms[s[1]].A))
KernAt(sc, s, q) == LET np == Len(sc.terms[q].kern.p) IN
  [t |-> sc.terms[q].kern.t, p |-> Millis(SubSeq(s.kp[q], 1, np)),
   s |-> Millis(SubSeq(s.kp[q], np + 1, Len(s.kp[q])))]
BMat(D, A, kap) == MkMat(D, D, LAMBDA i, j :
   FAdd(FDot([r \in 1 .. Len(A) |-> A[r][i]], [r \in 1 .. Len(A) |-> A[r][j]]),
        IF i = j THEN kap[i] ELSE F0))
(* the gradient handed to upd: distinct numbers per parameter *)
UpdA(s, q, r, d) == s * 1000 + q * 100 + r * 10 + d
UpdKap(s, q, d) == 0 - (s * 1000 + q * 100 + d)
UpdK(s, q, i) == s * 500 + q * 10 + i
UpdNoise(s, d) == s * 777 + d
(* Design: the per-dimension groups partition the terms and the counts     *)
(* add up.                                                                  *)
Partition == phase = "run" =>
  LET sc == g
      n == Cardinality(UNION {{Idxs(sc, ad)[i] : i \in 1 .. Len(Idxs(sc, ad))} : ad \in AdSet(sc)})
  IN n = NT /\ FoldSet(LAMBDA ad, acc : acc + Len(Idxs(sc, ad)), 0, AdSet(sc)) = NT
FixedParts == phase = "run" => \A q \in 1 .. NT :
  /\ (g.terms[q].kind = "slfm" => st.kap[q] = Zeros(g.D))
  /\ (g.terms[q].kind = "indep" => st.kap[q] = Kap0(g.D, g.terms[q]) /\ st.A[q] = << Zeros(g.D) >>)
DimOnce == [][(phase = "run" /\ st.P # 0) => st'.P = st.P]_vars
=============================================================================
