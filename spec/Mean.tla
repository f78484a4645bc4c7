-------------------------------- MODULE Mean --------------------------------
(***************************************************************************)
(* C22: mean functions.  Several objects, zero or constant, each with its  *)
(* own offsets and gradient (thousandths); constructed, evaluated,         *)
(* differentiated, written and updated in any order.                       *)
(***************************************************************************)
EXTENDS Obs, Json, IOUtils, SequencesExt
CONSTANTS Ds, Lens, Vals, MaxObjs, MaxOps, Sim
ValsMC == {-1500, 2000}
ValsSim == {-123456, -1500, -1, 0, 1, 500, 2000, 98765}
VARIABLES objs, ops, fired
vars == <<objs, ops, fired>>
Milli(n) == FRat(n, 1000)
Millis(s) == [i \in 1 .. Len(s) |-> Milli(s[i])]
Pick(S) == PickIf(Sim, S)
RE(S, i) == IF Sim THEN RandomElement(S)
            ELSE LET o == SetToSortSeq(S, LAMBDA a, b : a < b) IN o[(i % Len(o)) + 1]
Vec_(n, i) == TLCEval([j \in 1 .. n |-> RE(Vals, i + j)])
Zs(n) == [j \in 1 .. n |-> 0]
(* the effect of an operation on the objects; reads have none *)
NewObj(o) == [t |-> o.t, D |-> o.D,
              c |-> IF o.t = "zero" THEN <<>> ELSE IF o.c0 = <<>> THEN Zs(o.D) ELSE o.c0,
              g |-> <<>>]      \* unspecified until the first update
BadC0(o) == o.t = "const" /\ o.c0 # <<>> /\ Len(o.c0) # o.D
Apply(s, o) ==
  CASE o.op = "new" -> IF BadC0(o) THEN s ELSE Append(s, NewObj(o))
    [] o.op = "setall" -> [s EXCEPT ![o.k].c = o.v]
    [] o.op = "set1" -> [s EXCEPT ![o.k].c[o.i] = o.v]
    [] o.op = "upd" -> IF s[o.k].t = "zero" THEN s ELSE [s EXCEPT ![o.k].g = o.v]
    [] OTHER -> s
Init == objs = <<>> /\ ops = <<>> /\ fired = FALSE
Live == ~fired /\ Len(ops) < MaxOps
Do(o) == ops' = Append(ops, o) /\ objs' = Apply(objs, o) /\ UNCHANGED fired
New == /\ Live /\ Len(objs) < MaxObjs
       /\ \E t \in Pick({"zero", "const"}), D \in Pick(Ds),
             src \in Pick({"default", "int", "float", "shared", "short", "long"}) :
            \E n \in {CASE src = "default" -> 0 [] src = "short" -> D - 1 [] src = "long" -> D + 1 [] OTHER -> D} :
             \E v \in {Vec_(n, Len(ops))} :
               /\ (t = "zero" => src = "default")
               /\ (src = "short" => n > 0)
               /\ Do([op |-> "new", t |-> t, D |-> D, src |-> src,
                   c0 |-> IF src = "int" THEN [j \in 1 .. n |-> (v[j] \div 1000) * 1000] ELSE v])
Consts == {k \in 1 .. Len(objs) : objs[k].t = "const"}
Query == /\ Live /\ objs # <<>>
         /\ \E k \in Pick(1 .. Len(objs)), f \in Pick({"f", "grad"}) :
             \E fault \in Pick(IF f = "grad" THEN {"none"} ELSE {"none", "fewer", "more", "ndim"}) :
             \E D \in {objs[k].D} :
             \E n \in {CASE fault = "fewer" -> D - 1 [] fault = "more" -> D + 1 [] OTHER -> D} :
              \E ls \in {TLCEval([j \in 1 .. n |-> RE(Lens, Len(ops) + j)])},
                 dt \in (IF Sim THEN Pick({"float", "float32", "int"}) ELSE {<<"float", "int", "float32">>[(Len(ops) % 3) + 1]}) :
               Do([op |-> f, k |-> k, fault |-> fault, lens |-> ls, dt |-> dt,
                   at |-> IF fault = "ndim" THEN (Len(ops) % n) + 1 ELSE 0])
Write == /\ Live /\ Consts # {}
         /\ \E k \in Pick(Consts), how \in Pick({"setall", "set1", "upd"}) :
             \E i \in Pick(1 .. objs[k].D), v \in {Vec_(objs[k].D, Len(ops))} :
               Do(IF how = "set1" THEN [op |-> how, k |-> k, i |-> i, v |-> v[1]]
                  ELSE [op |-> how, k |-> k, v |-> v])
ZeroUpd == /\ Live /\ \E k \in Pick(1 .. Len(objs)) : objs[k].t = "zero" /\ Do([op |-> "upd", k |-> k, v |-> <<>>])
Read == /\ Live /\ Consts # {} /\ \E k \in Pick(Consts) : Do([op |-> "read", k |-> k])
Fire == /\ ~fired /\ Len(ops) = MaxOps /\ fired' = TRUE /\ UNCHANGED <<objs, ops>>
Next == New \/ Query \/ Write \/ ZeroUpd \/ Read \/ Fire
Emit == IF fired THEN PrintT("@SC " \o ToJson([ops |-> ops])) ELSE TRUE
(* Design: operations touch only the object they name.                     *)
Local == [][\A k \in 1 .. Len(objs) :
     (ops' # ops /\ ops'[Len(ops')].op # "new" /\ ops'[Len(ops')].k # k) => objs'[k] = objs[k]]_vars
Shapes == \A k \in 1 .. Len(objs) : objs[k].t = "const" =>
             Len(objs[k].c) = objs[k].D /\ Len(objs[k].g) \in {0, objs[k].D}
=============================================================================
