------------------------------- MODULE Valid -------------------------------
(***************************************************************************)
(* C10: which calls are ill-formed.  A call starts out well-formed, and    *)
(* faults are introduced one at a time; independently, Bad(call) says from *)
(* the arguments alone whether it has to be rejected.  The design check is *)
(* that the two agree: a call is bad exactly if some fault was introduced. *)
(* Shapes only; the driver fills in numbers.                               *)
(***************************************************************************)
EXTENDS Obs, Json, IOUtils, SequencesExt
CONSTANTS Kinds, MaxFaults, Ps, Ds, Sim
VARIABLES call, faults, done
vars == <<call, faults, done>>
Pick(S) == PickIf(Sim, S)
Nil == [kind |-> "nil"]
None == << -1 >>        \* an argument that is not passed

-----------------------------------------------------------------------------
(* Models.  xs: per input array [n, nd, c]: number of rows, number of      *)
(* array dimensions, columns (1 if nd = 1).  ys: [n, nd, const].           *)
XDim(x) == IF x.nd = 1 THEN 1 ELSE x.c
BadModel(c) ==
  \/ Len(c.xs) = 0
  \/ Len(c.xs) # Len(c.ys)
  \/ \E i \in 1 .. Len(c.xs) :
       \/ c.xs[i].n # c.ys[i].n
       \/ c.xs[i].nd \notin {1, 2}
       \/ c.ys[i].nd # 1
       \/ c.ys[i].const # 0
       \/ \E j \in 1 .. Len(c.xs) : XDim(c.xs[i]) # XDim(c.xs[j])
  \/ c.fk = "none"
  \/ c.mode \notin {"exact", "on-the-fly", "precompute"}
  \/ (c.fk = "bound" /\ c.fkP # XDim(c.xs[1]))
BaseModel ==
  \E P \in Pick(Ps), D \in Pick(Ds), mode \in Pick({"exact", "on-the-fly", "precompute"}),
     norm \in Pick({TRUE, FALSE}), fk \in Pick({"new", "bound"}), flat \in Pick({TRUE, FALSE}),
     amp \in Pick({"plain", "tiny", "offset", "int", "intx"}), short \in Pick({0, 1}) :
    (Sim \/ amp = "plain" \/ mode = "on-the-fly") /\
    call' = [kind |-> "model", P |-> P, amp |-> amp,
             xs |-> [i \in 1 .. D |-> [n |-> 2 + i - short, nd |-> IF P = 1 /\ (flat \/ i = 2) THEN 1 ELSE 2, c |-> P]],
             ys |-> [i \in 1 .. D |-> [n |-> 2 + i - short, nd |-> 1, const |-> 0]],
             fk |-> fk, fkP |-> P, mode |-> mode, norm |-> norm]
Consts == {1, 9, 100, 7000, -33}     \* thousandths; 9: zero
ModelFaults(c) ==
  (IF c.xs # <<>> THEN {[c EXCEPT !.xs = <<>>, !.ys = <<>>],
                        [c EXCEPT !.xs = SubSeq(@, 1, Len(@) - 1)]} ELSE {})
  \cup (IF c.ys # <<>> THEN {[c EXCEPT !.ys = SubSeq(@, 1, Len(@) - 1)]} ELSE {})
  \cup {[c EXCEPT !.ys = Append(@, [n |-> 3, nd |-> 1, const |-> 0])]}
  \cup {[c EXCEPT !.fk = "none"], [c EXCEPT !.mode = "matrix-free"], [c EXCEPT !.mode = ""]}
  \cup (IF c.fk = "bound" /\ c.fkP = c.P THEN {[c EXCEPT !.fkP = 3 - c.P]} ELSE {})
  \cup UNION {{[c EXCEPT !.xs[i].n = @ + 1], [c EXCEPT !.xs[i].nd = 3]} : i \in 1 .. Len(c.xs)}
  \cup UNION {(IF Len(c.xs) > 1 THEN {[c EXCEPT !.xs[i].nd = 2, !.xs[i].c = c.P + 1]} ELSE {})
              \cup (IF Len(c.xs) > 1 /\ c.P > 1 THEN {[c EXCEPT !.xs[i].nd = 1]} ELSE {})
               : i \in 1 .. Len(c.xs)}
  \cup UNION {{[c EXCEPT !.ys[i].nd = 2]} \cup {[c EXCEPT !.ys[i].const = k] : k \in Consts}
               : i \in 1 .. Len(c.ys)}

(* Functional kernels.  Counts of kernels, -1 if the list is not passed.   *)
Ct(n) == IF n < 0 THEN 0 ELSE n
SetOrLen(s) == IF s = None THEN 0 ELSE Len(s)
BadFk(c) ==
  \/ c.D \in {-1, 0}
  \/ Ct(c.lmc) + Ct(c.slfm) + Ct(c.indep) = 0
  \/ Ct(c.lmc) # SetOrLen(c.ranks)
  \/ (c.ranks # None /\ \E i \in 1 .. Len(c.ranks) : c.ranks[i] <= 0)
  \/ (IF c.idx = None THEN Ct(c.indep) > c.D
      ELSE Len(c.idx) # Ct(c.indep) \/ \E i \in 1 .. Len(c.idx) : c.idx[i] >= c.D)
BaseFk ==
  \E D \in Pick(Ds), lmc \in Pick({-1, 0, 1, 2}), slfm \in Pick({-1, 0, 1, 2}), how \in Pick({"no", "all", "perm", "some"}) :
    /\ (lmc > 0 \/ slfm > 0 \/ how # "no")
    /\ call' = [kind |-> "fk", D |-> D, lmc |-> lmc, ranks |-> IF lmc = -1 THEN None ELSE [i \in 1 .. lmc |-> i],
             slfm |-> slfm,
             indep |-> CASE how = "no" -> -1 [] how = "some" -> 1 [] OTHER -> D,
             idx |-> CASE how = "perm" -> [i \in 1 .. D |-> D - i] [] how = "some" -> << D - 1 >> [] OTHER -> None]
FkFaults(c) ==
  {[c EXCEPT !.D = 0], [c EXCEPT !.D = -1],
   [c EXCEPT !.lmc = 0, !.ranks = None, !.slfm = -1, !.indep = 0, !.idx = None],
   [c EXCEPT !.ranks = IF @ = None THEN <<1>> ELSE Append(@, 1)],
   [c EXCEPT !.idx = IF @ = None THEN (IF Ct(c.indep) = 1 THEN <<0, 0>> ELSE <<0>>) ELSE Append(@, 0)]}
  \cup (IF c.ranks # None /\ c.ranks # <<>>
        THEN {[c EXCEPT !.ranks[Len(c.ranks)] = 0], [c EXCEPT !.ranks[1] = -2],
              [c EXCEPT !.ranks = SubSeq(@, 1, Len(@) - 1)]} ELSE {})
  \cup (IF c.idx # None THEN {[c EXCEPT !.idx[1] = c.D], [c EXCEPT !.idx[Len(c.idx)] = c.D + 3]} ELSE {})
  \cup (IF c.idx = None /\ c.indep >= 0 THEN {[c EXCEPT !.indep = c.D + 1]} ELSE {})

(* Binding a functional kernel to an input dimension, several times.       *)
BadDims(c) == \E i \in 1 .. Len(c.ps) : c.ps[i] # c.ps[1]
BaseDims == \E P \in Pick({1, 2, 3}), n \in Pick({1, 2, 3}) :
    call' = [kind |-> "dims", ps |-> [i \in 1 .. n |-> P]]
DimsFaults(c) == {[c EXCEPT !.ps = Append(@, c.ps[1] + 1)]}
  \cup (IF c.ps[1] > 1 THEN {[c EXCEPT !.ps = Append(@, c.ps[1] - 1)]} ELSE {})

(* Matrices.  sh: array shape; more: other shapes.                         *)
BadMat(c) ==
  CASE c.cls \in {"toeplitz", "diag"} -> Len(c.sh) # 1 \/ c.sh[1] = 0
    [] c.cls = "dense" -> Len(c.sh) # 2 \/ 0 \in {c.sh[i] : i \in 1 .. Len(c.sh)}
    [] c.cls = "bttb" -> \/ Len(c.sh) # 1 \/ c.sh[1] = 0
                         \/ Prod(c.more) # c.sh[1]
    [] c.cls \in {"sum", "rsum"} -> c.more = <<>> \/ \E i \in 1 .. Len(c.more) : c.more[i] # c.more[1]
    [] c.cls = "blocks" -> c.more = <<>> \/ \E i \in 1 .. Len(c.more) : c.more[i] # Len(c.more)
    [] c.cls = "wrap" -> 0 \in {c.sh[i] : i \in 1 .. 2}
BaseMat ==
  \E cls \in Pick({"toeplitz", "diag", "dense", "bttb", "sum", "rsum", "blocks", "wrap"}), n \in Pick({1, 2, 4}), ax \in Pick({1, 2, 3}) :
    (ax = 1 \/ cls = "bttb" \/ Sim) /\
    call' = [kind |-> "mat", cls |-> cls,
             sh |-> CASE cls \in {"toeplitz", "diag"} -> <<n>> [] cls = "bttb" -> <<n * n>>
                      [] cls \in {"dense", "wrap"} -> <<n, n + 1>> [] OTHER -> <<1>>,
             (* rsum: rows * 100 + columns of each summand *)
             more |-> CASE cls = "bttb" -> <<<<n, n>>, <<n * n>>, <<n, 1, n>>>>[ax] [] cls = "rsum" -> [i \in 1 .. 2 |-> 100 * n + 3] [] cls \in {"sum", "blocks"} -> [i \in 1 .. n |-> n] [] OTHER -> <<>>]
MatFaults(c) ==
  CASE c.cls \in {"sum", "rsum", "blocks"} /\ c.more = <<>> -> {c}
    [] c.cls \in {"toeplitz", "diag"} -> {[c EXCEPT !.sh = <<0>>], [c EXCEPT !.sh = <<c.sh[1], 1>>],
                  [c EXCEPT !.sh = <<2, 2>>], [c EXCEPT !.sh = <<1, 3>>]}
    [] c.cls = "dense" -> {[c EXCEPT !.sh = <<0, 2>>], [c EXCEPT !.sh = <<2, 0>>], [c EXCEPT !.sh = <<3>>],
                  [c EXCEPT !.sh = <<2, 2, 2>>]}
    [] c.cls = "bttb" -> {[c EXCEPT !.sh = <<0>>], [c EXCEPT !.sh = <<c.sh[1], 1>>], [c EXCEPT !.sh = <<c.sh[1] + 1>>],
                  [c EXCEPT !.more[1] = @ + 1], [c EXCEPT !.more[Len(c.more)] = 0]}
    [] c.cls = "sum" -> {[c EXCEPT !.more = <<>>], [c EXCEPT !.more = Append(@, c.more[1] + 1)],
                  [c EXCEPT !.more = << c.more[1] + 2 >> \o @]}
    [] c.cls = "rsum" -> {[c EXCEPT !.more = Append(@, c.more[1] + 1)], [c EXCEPT !.more = Append(@, c.more[1] + 100)],
                  [c EXCEPT !.more = << c.more[1] - 1 >> \o @]}
    [] c.cls = "blocks" -> {[c EXCEPT !.more = <<>>], [c EXCEPT !.more[1] = @ + 1], [c EXCEPT !.more = Append(@, Len(@))]}
    [] c.cls = "wrap" -> {[c EXCEPT !.sh[1] = 0], [c EXCEPT !.sh[2] = 0]}

(* Queries against an existing model of input dimension P.                 *)
BadQuery(c) == \E i \in 1 .. Len(c.qs) : XDim(c.qs[i]) # c.P
BaseQuery ==
  \E P \in Pick(Ps), D \in Pick(Ds), mode \in Pick({"exact", "on-the-fly", "precompute"}),
     f \in Pick({"predict", "quantiles"}), flat \in Pick({TRUE, FALSE}) :
    call' = [kind |-> "query", P |-> P, mode |-> mode, f |-> f,
             qs |-> [i \in 1 .. D |-> [n |-> i - 1, nd |-> IF P = 1 /\ flat THEN 1 ELSE 2, c |-> P]]]
QueryFaults(c) ==
  UNION {{[c EXCEPT !.qs[i].nd = 2, !.qs[i].c = c.P + 1]}
         \cup (IF c.P > 1 THEN {[c EXCEPT !.qs[i].nd = 1], [c EXCEPT !.qs[i].nd = 2, !.qs[i].c = c.P - 1]} ELSE {})
         : i \in 1 .. Len(c.qs)}

(* Evaluating mean functions.                                              *)
BadMean(c) == Len(c.nds) # c.D \/ \E i \in 1 .. Len(c.nds) : c.nds[i] # 1
BaseMean == \E t \in Pick({"zero", "const"}), D \in Pick(Ds) :
    call' = [kind |-> "mean", t |-> t, D |-> D, nds |-> [i \in 1 .. D |-> 1]]
MeanFaults(c) == {[c EXCEPT !.nds = Append(@, 1)]}
  \cup (IF c.nds # <<>> THEN {[c EXCEPT !.nds = SubSeq(@, 1, Len(@) - 1)], [c EXCEPT !.nds[1] = 2],
                              [c EXCEPT !.nds[Len(c.nds)] = 2]} ELSE {})

-----------------------------------------------------------------------------
Bad(c) == CASE c.kind = "model" -> BadModel(c) [] c.kind = "fk" -> BadFk(c) [] c.kind = "mat" -> BadMat(c)
            [] c.kind = "query" -> BadQuery(c) [] c.kind = "dims" -> BadDims(c) [] c.kind = "mean" -> BadMean(c)
Faults(c) == CASE c.kind = "model" -> ModelFaults(c) [] c.kind = "fk" -> FkFaults(c) [] c.kind = "mat" -> MatFaults(c)
            [] c.kind = "query" -> QueryFaults(c) [] c.kind = "dims" -> DimsFaults(c) [] c.kind = "mean" -> MeanFaults(c)
Init == call = Nil /\ faults = 0 /\ done = FALSE
Base == /\ call = Nil
        /\ \E k \in Pick(Kinds) : CASE k = "model" -> BaseModel [] k = "fk" -> BaseFk [] k = "mat" -> BaseMat
                                    [] k = "query" -> BaseQuery [] k = "dims" -> BaseDims [] k = "mean" -> BaseMean
        /\ UNCHANGED <<faults, done>>
(* later faults could cancel earlier ones: only those that stay bad *)
Break == /\ call # Nil /\ ~done /\ faults < MaxFaults
         /\ \E c \in Pick(Faults(call)) : ((faults = 0 \/ Bad(c)) = TRUE) /\ call' = c
         /\ faults' = faults + 1 /\ UNCHANGED done
Fire == /\ call # Nil /\ ~done /\ done' = TRUE /\ UNCHANGED <<call, faults>>
        /\ (Sim => RandomElement(1 .. 2) = 1 \/ faults = MaxFaults)
Next == Base \/ Break \/ Fire
Emit == IF done THEN PrintT("@SC " \o ToJson(call)) ELSE TRUE
(* Design: well-formed exactly without faults.                             *)
FaultsAreBad == call # Nil => (Bad(call) <=> faults > 0)
=============================================================================
