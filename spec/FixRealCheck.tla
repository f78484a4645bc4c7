---------------------------- MODULE FixRealCheck ----------------------------
(* Self-check of the arithmetic every verdict rests on: a state is a pair  *)
(* of sample points, the invariants are laws that the fixed-point numbers  *)
(* (java/FixReal.java) and the functions of RealFns must obey.             *)
EXTENDS RealFns
CONSTANTS Nums, Dens, Smalls
VARIABLES x, y, i, j
SmallsDef == {-1000, -7, -1, 0, 1, 3, 999}
NumsDef == {-31, -7, -2, 0, 1, 5, 40}
Near(a, b) == FNear(a, b, FRat(1, 1000000000), FRat(1, 1000000000))
Init == x = F0 /\ y = F0 /\ i = 0 /\ j = 0
Next == \/ /\ x = F0 /\ \E n \in Nums, d \in Dens : x' = FRat(n, d)
           /\ UNCHANGED <<y, i, j>>
        \/ /\ x # F0 /\ y = F0 /\ \E n \in Nums, d \in Dens : y' = FRat(n, d)
           /\ UNCHANGED <<x, i, j>>
        \/ /\ x = F0 /\ y = F0 /\ i' \in Smalls /\ j' \in Smalls /\ UNCHANGED <<x, y>>

(* numbers of a few units, where TLC can evaluate the definitions *)
Unit(n) == IF n < 0 THEN <<-1, FBase - 1, FBase + n>> ELSE <<0, 0, n>>
Limbs == /\ FAdd(Unit(i), Unit(j)) = Unit(i + j)
         /\ FSub(Unit(i), Unit(j)) = Unit(i - j)
         /\ FNeg(Unit(i)) = Unit(-i)
         /\ FAbs(Unit(i)) = Unit(IF i < 0 THEN -i ELSE i)
         /\ FLe(Unit(i), Unit(j)) = (i <= j)
         /\ FLt(Unit(i), Unit(j)) = (i < j)
         /\ FMul(FInt(i), Unit(j)) = Unit(i * j)
         /\ FInt(i) = <<IF i < 0 THEN (0 - ((999 - i) \div 1000)) ELSE i \div 1000, (i % 1000) * 1000000, 0>>
         /\ FFloor(FRat(i, 7)) = i \div 7
         /\ FDot(<<FInt(i), Unit(j)>>, <<Unit(j), FInt(i)>>) = Unit(2 * i * j)
Field == /\ FAdd(x, y) = FAdd(y, x) /\ FMul(x, y) = FMul(y, x)
         /\ FSub(FAdd(x, y), y) = x
         /\ Near(FMul(x, FAdd(y, F1)), FAdd(FMul(x, y), x))
         /\ (x # F0 => Near(FMul(FDiv(y, x), x), y))
         /\ (FLe(x, y) <=> ~FLt(y, x))
         /\ FLe(FMul(x, y), FMul(FHalf, FAdd(FSq(x), FSq(y))))
Functions ==
  /\ Near(FExp(FAdd(x, y)), FMul(FExp(x), FExp(y))) \/ FLt(FInt(20), FAdd(FAbs(x), FAbs(y)))
  /\ (FLt(FAbs(x), FInt(12)) => Near(FLn(FExp(x)), x) \/ FLt(x, FInt(-8)))
  /\ Near(FAdd(FSq(FSin(x)), FSq(FCos(x))), F1)
  /\ Near(FSin(FAdd(x, y)), FAdd(FMul(FSin(x), FCos(y)), FMul(FCos(x), FSin(y))))
  /\ (FLe(F0, x) => Near(FSq(FSqrt(x)), x))
  /\ (FLe(FAbs(x), FInt(5)) => Near(FAdd(FPhi(x), FPhi(FNeg(x))), F1))
  /\ ((FLe(FAbs(x), FInt(5)) /\ FLe(FAbs(y), FInt(5)) /\ FLt(x, y)) => FLe(FPhi(x), FPhi(y)))
Known == /\ Near(FExp(F1), <<0, 2718281, 828459045>>)
         /\ Near(FLn(FInt(10)), <<0, 2302585, 92994046>>)
         /\ Near(FSqrt(F2), <<0, 1414213, 562373095>>)
         /\ Near(FSin(F1), <<0, 841470, 984807897>>)
         /\ Near(FCos(FInt(100)), <<0, 862318, 872287684>>)
         /\ Near(FPhi(F1), <<0, 841344, 746068543>>)
         /\ Near(FPhi(FRat(-196, 100)), <<0, 24997, 895148220>>)
(* a positive definite system, its solution and determinant *)
Linear ==
  LET a == FAdd(F1, FSq(x))
      b == FRat(1, 3)
      c == FAdd(F2, FSq(y))
      A == << <<a, b>>, <<b, c>> >>
      s == SolveVec(A, <<x, y>>)
      piv == SolveMat(A, Eye(2)).piv
  IN /\ VecNear(MatVec(A, s), <<x, y>>, FRat(1, 100000000), FRat(1, 100000000))
     /\ MatNear(MatMul(A, Inverse(A)), Eye(2), FRat(1, 100000000), F0)
     /\ Near(LogDet(piv), FLn(FSub(FMul(a, c), FSq(b))))
     /\ Transpose(Transpose(A)) = A
=============================================================================
