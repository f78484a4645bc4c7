-------------------------------- MODULE Obs --------------------------------
(***************************************************************************)
(* Observations recorded from the real code, as the drivers encode them:   *)
(*   [k |-> "none"] [k |-> "bool", b] [k |-> "int", v] [k |-> "str", s]    *)
(*   [k |-> "num", fin, v]                a scalar (FixReal v, if fin)     *)
(*   [k |-> "arr", shape, fin, v]         an array, flat in C order        *)
(*   [k |-> "list", v]  [k |-> "exc", t, mro]  [k |-> "timeout"]           *)
(*   [k |-> "crash"]    [k |-> "other", t]                                 *)
(* All predicates below are total: they are false, never undefined, on an  *)
(* observation of another kind.  A verdict is a set of failing clauses.    *)
(***************************************************************************)
EXTENDS RealFns, FiniteSets

(* In simulation, one random element instead of branching over all of S.   *)
PickIf(sim, S) == IF sim /\ S # {} THEN {RandomElement(S)} ELSE S

Clause(name, ok) == IF ok THEN {} ELSE {name}

IsArr(o)  == o.k = "arr"
IsExc(o)  == o.k = "exc"
IsBad(o)  == o.k \in {"exc", "timeout", "crash"}
IsList(o) == o.k = "list"
IsInt(o, n) == o.k = "int" /\ o.v = n
IsBool(o, b) == o.k = "bool" /\ o.b = b
RaisesA(o, name) == IsExc(o) /\ (\E i \in 1 .. Len(o.mro) : o.mro[i] = name)

Prod(shape) == IF shape = <<>> THEN 1
               ELSE IF Len(shape) = 1 THEN shape[1]
               ELSE IF Len(shape) = 2 THEN shape[1] * shape[2]
               ELSE shape[1] * shape[2] * shape[3]

HasShape(o, sh) == IsArr(o) /\ o.shape = sh
FinArr(o, sh)   == HasShape(o, sh) /\ o.fin

(* a 1-D array equal to the vector v, within tolerance *)
ArrIsVec(o, v, atol, rtol) ==
  FinArr(o, <<Len(v)>>) /\ VecNear(o.v, v, atol, rtol)

(* a 2-D array equal to the matrix A (a sequence of rows); cols gives the  *)
(* width, needed when A has no rows                                        *)
ArrIsMat(o, A, cols, atol, rtol) ==
  /\ FinArr(o, <<Len(A), cols>>)
  /\ \A i \in 1 .. Len(A) : \A j \in 1 .. cols :
        FNear(o.v[(i - 1) * cols + j], A[i][j], atol, rtol)

NumIs(o, x, atol, rtol) == o.k = "num" /\ o.fin /\ FNear(o.v, x, atol, rtol)
RowOf(o, i) == TLCEval(SubSeq(o.v, (i - 1) * o.shape[2] + 1, i * o.shape[2]))
MatOf(o) == TLCEval([i \in 1 .. o.shape[1] |-> RowOf(o, i)])

Tol  == FRat(1, 100000000)      \* 1e-8
TolM == FRat(1, 1000000)        \* 1e-6
TolL == FRat(1, 10000)          \* 1e-4
Tol3 == FRat(1, 1000)
=============================================================================
