------------------------------ MODULE ModelGen ------------------------------
(***************************************************************************)
(* Assembling a model: choose the input and output dimensions, add terms   *)
(* one at a time, add the observations of one output at a time, choose the *)
(* options.  Numbers are integers in thousandths.  Exhaustive runs (Sim =  *)
(* FALSE) enumerate the structure and derive the numbers from it;          *)
(* simulation draws both.                                                  *)
(***************************************************************************)
EXTENDS LMC, Obs, Json, IOUtils

CONSTANTS Ps, Ds, MaxTerms, MinPts, MaxPts, Kinds, KTypes, Ranks, Scaled,
          Norms, Bounds, Sim
VARIABLES phase, g
gvars == <<phase, g>>

Nil == [t |-> "nil"]
(* amplitude of the coregionalization vectors; a .cfg may replace it *)
Gain == 1
Gain10k == 10000
Hash(a, b, c) == (a * 7919 + b * 104729 + c * 1299 + a * b * 31 + b * c * 17 + 12345) % 100003
(* The periodic kernel is positive definite on one dimension only.         *)
(* an integer of lo .. hi *)
Num(lo, hi, a, b, c) == IF Sim THEN RandomElement(lo .. hi)
                        ELSE lo + (Hash(a, b, c) % (hi - lo + 1))
Pick(S) == PickIf(Sim, S)

AdChoices(P) ==
  CASE P = 1 -> {<<>>, <<0>>}
    [] P = 2 -> {<<>>, <<0>>, <<1>>, <<1, 0>>, <<0, 1>>}
    [] P = 3 -> {<<0>>, <<1>>, <<2>>, <<0, 2>>, <<2, 1>>, <<1, 0>>}
    [] OTHER -> {<<>>, <<0>>, <<2>>, <<10>>, <<11, 9>>, <<10, 2>>, <<1, 0>>, <<P - 1>>}
SortAd(s) == IF Len(s) = 2 /\ s[1] > s[2] THEN <<s[2], s[1]>> ELSE s
ResolveAd(s, P) == IF s = <<>> THEN [i \in 1 .. P |-> i - 1] ELSE SortAd(s)

NP(t) == CASE t = "per" -> 2 [] t = "id" -> 0 [] OTHER -> 1
KernOf(t, sc, a, b) ==
  [t |-> t,
   p |-> TLCEval([i \in 1 .. NP(t) |-> IF i = 2 THEN Num(1500, 6000, a, b, 7) ELSE Num(150, 2500, a, b, 3)]),
   s |-> IF sc THEN TLCEval(<<Num(400, 1600, a, b, 5)>>) ELSE <<>>]
Zeros(n) == [i \in 1 .. n |-> 0]
TermOf(D, kind, kern, ad, rank, out, a) ==
  [kind |-> kind, kern |-> kern, ad |-> ad, out |-> out,
   A   |-> IF kind = "indep" THEN << Zeros(D) >>
           ELSE TLCEval([r \in 1 .. rank |-> TLCEval([d \in 1 .. D |-> Gain * Num(-1500, 1500, a, r, d)])]),
   kap |-> CASE kind = "lmc" -> TLCEval([d \in 1 .. D |-> Num(100, 1500, a, d, 11)])
             [] kind = "slfm" -> Zeros(D)
             [] kind = "indep" -> [d \in 1 .. D |-> IF d = out THEN 1000 ELSE 0]]
KindRank(k) == CASE k = "lmc" -> 1 [] k = "slfm" -> 2 [] k = "indep" -> 3

GInit == phase = "shape" /\ g = Nil
Shape == /\ phase = "shape"
         /\ \E P \in Pick(Ps), D \in Pick(Ds) :
              g' = [P |-> P, D |-> D, terms |-> <<>>, X |-> <<>>, Y |-> <<>>]
         /\ phase' = "terms"
AddTerm ==
  /\ phase = "terms" /\ Len(g.terms) < MaxTerms
  /\ \E kind \in Pick({k \in Kinds : g.terms = <<>> \/
                         KindRank(k) >= KindRank(g.terms[Len(g.terms)].kind)}) :
     \E ad \in Pick(AdChoices(g.P)) :
     \E kt \in Pick(IF Len(ResolveAd(ad, g.P)) = 1 THEN KTypes ELSE KTypes \ {"per"}),
        sc \in Pick(Scaled), rank \in Pick(IF kind = "lmc" THEN Ranks ELSE {1}),
        out \in Pick(IF kind = "indep" THEN 1 .. g.D ELSE {1}) :
       LET a == Len(g.terms) * 13 + g.D * 7 + g.P
       IN g' = [g EXCEPT !.terms = Append(@,
                  TermOf(g.D, kind, KernOf(kt, sc, a, out), ad, rank, out, a))]
  /\ UNCHANGED phase
EndTerms == /\ phase = "terms" /\ g.terms # <<>>
            /\ (Sim => RandomElement(1 .. 2) = 1 \/ Len(g.terms) = MaxTerms)
            /\ phase' = "data" /\ UNCHANGED g
(* inputs over [0, 6], observations with spread; a first input is pinned   *)
(* so that no dimension is degenerate                                      *)
AddOutput ==
  /\ phase = "data" /\ Len(g.X) < g.D
  /\ \E n \in Pick(MinPts .. MaxPts) :
       LET o == Len(g.X) + 1
           xs == TLCEval([i \in 1 .. n |-> TLCEval([p \in 1 .. g.P |->
                   IF o = 1 /\ i <= 2 THEN (i - 1) * 3000 + 300 * p
                   ELSE Num(0, 6000, o * 3 + 1, i, p)])])
           ys == TLCEval([i \in 1 .. n |-> Num(-3000, 3000, o + 2, i, n)
                            + (IF i = 1 THEN 3500 ELSE IF i = 2 THEN -3500 ELSE 0)])
       IN g' = [g EXCEPT !.X = Append(@, xs), !.Y = Append(@, ys)]
  /\ UNCHANGED phase
(* grid options: none, counts, bounds that contain the data, or bounds     *)
(* that do not; per input dimension                                        *)
BoundOf(b, P) ==
  CASE b = "none" -> [lo |-> <<>>, hi |-> <<>>, m |-> <<>>]
    [] b = "m"    -> [lo |-> <<>>, hi |-> <<>>,
                      m |-> TLCEval([p \in 1 .. P |-> Num(3, 7, p, 2, 3)])]
    [] b = "wide" -> [lo |-> TLCEval([p \in 1 .. P |-> 0 - Num(500, 3000, p, 4, 3)]),
                      hi |-> TLCEval([p \in 1 .. P |-> Num(6500, 9000, p, 5, 3)]),
                      m |-> TLCEval([p \in 1 .. P |-> Num(4, 7, p, 6, 3)])]
    [] b = "inside" -> [lo |-> TLCEval([p \in 1 .. P |-> Num(1000, 3000, p, 4, 3)]),
                        hi |-> TLCEval([p \in 1 .. P |-> Num(3100, 5000, p, 5, 3)]),
                        m |-> <<>>]
    [] b = "lo" -> [lo |-> TLCEval([p \in 1 .. P |-> Num(-2000, 3000, p, 4, 3)]), hi |-> <<>>,
                    m |-> TLCEval([p \in 1 .. P |-> Num(4, 7, p, 6, 3)])]
    [] b = "hi" -> [lo |-> <<>>, hi |-> TLCEval([p \in 1 .. P |-> Num(2000, 8000, p, 4, 3)]),
                    m |-> TLCEval([p \in 1 .. P |-> Num(4, 7, p, 6, 3)])]
Options == /\ phase = "data" /\ Len(g.X) = g.D
           /\ \E nz \in Pick(Norms), b \in Pick(Bounds) :
                LET bo == BoundOf(b, g.P) IN
                g' = [P |-> g.P, D |-> g.D, terms |-> g.terms, X |-> g.X, Y |-> g.Y,
                      noise |-> TLCEval([d \in 1 .. g.D |-> Num(50, 900, d, 8, g.D)]),
                      norm |-> nz, lo |-> bo.lo, hi |-> bo.hi, m |-> bo.m]
           /\ phase' = "ready"
Build == Shape \/ AddTerm \/ EndTerms \/ AddOutput \/ Options

-----------------------------------------------------------------------------
(* The model (LMC.tla) denoted by a description in thousandths.            *)
KernM(k) == [t |-> k.t, p |-> Millis(k.p), s |-> Millis(k.s)]
TermM(P, t) == [kind |-> t.kind, kern |-> KernM(t.kern), ad |-> ResolveAd(t.ad, P),
                A |-> TLCEval([r \in 1 .. Len(t.A) |-> Millis(t.A[r])]), kap |-> Millis(t.kap)]
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flatten(Tail(s))
PtsOf(X) == TLCEval(Flatten([d \in 1 .. Len(X) |->
     [i \in 1 .. Len(X[d]) |-> [d |-> d, x |-> Millis(X[d][i])]]]))
MeanOf(v) == FDiv(FSum(v), FInt(Len(v)))
StdOf(v) == LET mu == MeanOf(v)
                c == TLCEval([i \in 1 .. Len(v) |-> FSub(v[i], mu)])
            IN FSqrt(FDiv(FDot(c, c), FInt(Len(v))))
(* per output [mu, sd]; <<0, 1>> without normalization *)
ScaleOf(r, d) == IF r.norm THEN LET v == Millis(r.Y[d])
                                IN [mu |-> TLCEval(MeanOf(v)), sd |-> TLCEval(StdOf(v))]
                 ELSE [mu |-> F0, sd |-> F1]
Scales(r) == TLCEval([d \in 1 .. r.D |-> ScaleOf(r, d)])
YOf(r) == LET sc == Scales(r) IN TLCEval(Flatten([d \in 1 .. r.D |->
     [i \in 1 .. Len(r.Y[d]) |-> FDiv(FSub(Milli(r.Y[d][i]), sc[d].mu), sc[d].sd)]]))
OptOf(s, ad, i, Conv(_)) == IF s = <<>> THEN <<>> ELSE << Conv(s[ad[i] + 1]) >>
GridsFor(r, ads) ==
  LET pts == PtsOf(r.X) IN
  TLCEval([ad \in ads |-> TLCEval([i \in 1 .. Len(ad) |->
     AxisOf([j \in 1 .. Len(pts) |-> pts[j].x[ad[i] + 1]],
            OptOf(r.lo, ad, i, Milli), OptOf(r.hi, ad, i, Milli),
            OptOf(r.m, ad, i, LAMBDA z : z), r.D)])])
ModelOf(r) ==
  LET ts == TLCEval([q \in 1 .. Len(r.terms) |-> TermM(r.P, r.terms[q])])
  IN TLCEval([P |-> r.P, D |-> r.D, terms |-> ts, noise |-> Millis(r.noise),
              pts |-> PtsOf(r.X), y |-> YOf(r),
              grids |-> GridsFor(r, {ts[q].ad : q \in 1 .. Len(ts)})])
=============================================================================
