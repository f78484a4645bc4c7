------------------------------ MODULE RealFns ------------------------------
(***************************************************************************)
(* Elementary functions over FixReal numbers, defined in TLA+ by their     *)
(* series and by range reduction; and dense vectors and matrices.          *)
(***************************************************************************)
EXTENDS FixReal, Integers, Sequences, TLC

F0 == FInt(0)
F1 == FInt(1)
F2 == FInt(2)
FHalf == FRat(1, 2)
FScale(k, a) == FMul(FInt(k), a)
FMax(a, b) == IF FLt(a, b) THEN b ELSE a
FMin(a, b) == IF FLt(a, b) THEN a ELSE b
FSq(a) == FMul(a, a)

(* 3.141592653589793 ; ln 2 = 0.693147180559945 *)
FPi  == <<0, 3141592, 653589793>>
FLn2 == <<0, 693147, 180559945>>

RECURSIVE FPow(_, _)
FPow(a, n) == IF n = 0 THEN F1 ELSE IF n = 1 THEN a ELSE
              LET h == TLCEval(FPow(a, n \div 2)) IN
              IF n % 2 = 0 THEN FMul(h, h) ELSE FMul(a, FMul(h, h))

(* exp: x = k ln2 + r, |r| <= ln2; Taylor on r; then 2^k. *)
RECURSIVE ExpTaylor(_, _, _, _)
ExpTaylor(r, k, term, acc) ==
  IF k > 22 THEN acc
  ELSE LET t == TLCEval(FDiv(FMul(term, r), FInt(k)))
       IN ExpTaylor(r, k + 1, t, TLCEval(FAdd(acc, t)))
RECURSIVE Pow2Mul(_, _)
Pow2Mul(a, k) == IF k = 0 THEN a
                 ELSE IF k > 0 THEN Pow2Mul(TLCEval(FAdd(a, a)), k - 1)
                 ELSE Pow2Mul(TLCEval(FMul(a, FHalf)), k + 1)
FExp(x) == IF FLt(x, FInt(-60)) THEN F0 ELSE
           IF FLt(FInt(28), x) THEN FInt(2000000000) ELSE
           LET k == FFloor(FDiv(x, FLn2))
               r == TLCEval(FSub(x, FScale(k, FLn2)))
           IN Pow2Mul(ExpTaylor(r, 1, F1, F1), k)

(* ln: bring a into [1/sqrt2.., ] by halving/doubling, then atanh series *)
RECURSIVE AtanhSeries(_, _, _, _)
AtanhSeries(z2, k, term, acc) ==
  IF k > 60 THEN acc
  ELSE LET t == TLCEval(FMul(term, z2))
       IN AtanhSeries(z2, k + 2, t, TLCEval(FAdd(acc, FDiv(t, FInt(k)))))
RECURSIVE FLnPos(_)
FLnPos(a) ==
  IF FLt(FRat(3, 2), a) THEN FAdd(FLn2, FLnPos(TLCEval(FMul(a, FHalf))))
  ELSE IF FLt(a, FRat(3, 4)) THEN FSub(FLnPos(TLCEval(FAdd(a, a))), FLn2)
  ELSE LET z == TLCEval(FDiv(FSub(a, F1), FAdd(a, F1)))
       IN FMul(F2, AtanhSeries(TLCEval(FMul(z, z)), 3, z, z))
FLn(a) == IF FLe(a, F0) THEN FInt(-2000000000) ELSE FLnPos(a)

(* sqrt by Newton from above *)
RECURSIVE SqrtNewton(_, _, _)
SqrtNewton(a, x, k) ==
  IF k = 0 THEN x
  ELSE SqrtNewton(a, TLCEval(FMul(FHalf, FAdd(x, FDiv(a, x)))), k - 1)
FSqrt(a) == IF FLe(a, F0) THEN F0
            ELSE LET s == IF FLt(a, F1) THEN F1 ELSE a
                 IN IF FLt(a, FRat(1, 1000000)) \/ FLt(FInt(1000000), a)
                    THEN SqrtNewton(a, s, 60) ELSE SqrtNewton(a, s, 26)

(* sin, cos with reduction modulo 2 pi into [-pi, pi] *)
RECURSIVE SinTaylor(_, _, _, _)
SinTaylor(r2, k, term, acc) ==
  IF k > 31 THEN acc
  ELSE LET t == TLCEval(FNeg(FDiv(FMul(term, r2), FInt(k * (k - 1)))))
       IN SinTaylor(r2, k + 2, t, TLCEval(FAdd(acc, t)))
Reduce(x) == LET p2 == FMul(F2, FPi)
                 k  == FFloor(FAdd(FDiv(x, p2), FHalf))
             IN FSub(x, FScale(k, p2))
FSin(x) == LET r == TLCEval(Reduce(x)) IN SinTaylor(TLCEval(FSq(r)), 3, r, r)
FCos(x) == LET r == TLCEval(Reduce(x)) IN SinTaylor(TLCEval(FSq(r)), 2, F1, F1)

(* standard normal distribution function, |z| <= 5 *)
RECURSIVE PhiTaylor(_, _, _, _)
PhiTaylor(z2, k, term, acc) ==
  IF k > 150 THEN acc
  ELSE LET t == TLCEval(FDiv(FMul(term, z2), FInt(2 * k + 1)))
       IN PhiTaylor(z2, k + 1, t, TLCEval(FAdd(acc, t)))
FPhi(z) == FAdd(FHalf,
             FMul(FDiv(FExp(FNeg(FMul(FHalf, FSq(z)))), FSqrt(FMul(F2, FPi))),
                  PhiTaylor(TLCEval(FSq(z)), 1, z, z)))

-----------------------------------------------------------------------------
(* Vectors and matrices are sequences (of sequences) of FixReal numbers.   *)
Vec(n, Op(_)) == TLCEval([i \in 1 .. n |-> Op(i)])
MkMat(n, m, Op(_, _)) == TLCEval([i \in 1 .. n |-> TLCEval([j \in 1 .. m |-> Op(i, j)])])
Transpose(A) == IF A = <<>> THEN <<>> ELSE
                TLCEval([j \in 1 .. Len(A[1]) |-> TLCEval([i \in 1 .. Len(A) |-> A[i][j]])])
MatVec(A, x) == TLCEval([i \in 1 .. Len(A) |-> FDot(A[i], x)])
MatMul(A, C) == LET T == Transpose(C) IN
                TLCEval([i \in 1 .. Len(A) |-> TLCEval([j \in 1 .. Len(T) |-> FDot(A[i], T[j])])])
VecAdd(u, v) == TLCEval([i \in 1 .. Len(u) |-> FAdd(u[i], v[i])])
VecSub(u, v) == TLCEval([i \in 1 .. Len(u) |-> FSub(u[i], v[i])])
VecScale(a, v) == TLCEval([i \in 1 .. Len(v) |-> FMul(a, v[i])])
MatAdd(A, C) == TLCEval([i \in 1 .. Len(A) |-> VecAdd(A[i], C[i])])
MatScale(a, A) == TLCEval([i \in 1 .. Len(A) |-> VecScale(a, A[i])])
Eye(n) == MkMat(n, n, LAMBDA i, j : IF i = j THEN F1 ELSE F0)
Norm2(v) == FSqrt(FDot(v, v))

(* Gaussian elimination without pivoting on an augmented matrix: A SPD.    *)
(* Returns rows of the reduced system and the sequence of pivots.          *)
RECURSIVE Elim(_, _, _)
Elim(M, k, piv) ==
  IF k > Len(M) THEN [m |-> M, piv |-> piv]
  ELSE LET p == M[k][k]
           row == TLCEval([c \in 1 .. Len(M[k]) |-> FDiv(M[k][c], p)])
           M2 == TLCEval([i \in 1 .. Len(M) |->
                   IF i = k THEN row
                   ELSE LET f == M[i][k] IN
                        TLCEval([c \in 1 .. Len(row) |->
                          IF c < k THEN M[i][c] ELSE FSub(M[i][c], FMul(f, row[c]))])])
       IN Elim(M2, k + 1, TLCEval(Append(piv, p)))
(* A^-1 C for SPD A: [x |-> solution matrix, piv |-> pivots] *)
SolveMat(A, C) ==
  LET n == Len(A)
      r == TLCEval(Elim(TLCEval([i \in 1 .. n |-> A[i] \o C[i]]), 1, <<>>))
  IN [x   |-> TLCEval([i \in 1 .. n |-> SubSeq(r.m[i], n + 1, Len(r.m[i]))]),
      piv |-> r.piv]
SolveVec(A, y) == LET s == SolveMat(A, [i \in 1 .. Len(y) |-> <<y[i]>>])
                  IN TLCEval([i \in 1 .. Len(y) |-> s.x[i][1]])
Inverse(A) == SolveMat(A, Eye(Len(A))).x
LogDet(piv) == FSum([i \in 1 .. Len(piv) |-> FLn(piv[i])])
Trace2(A, C) ==    \* tr(A C)
  LET T == Transpose(C) IN FSum([i \in 1 .. Len(A) |-> FDot(A[i], T[i])])

VecNear(u, v, atol, rtol) ==
  /\ Len(u) = Len(v)
  /\ \A i \in 1 .. Len(u) : FNear(u[i], v[i], atol, rtol)
MatNear(A, C, atol, rtol) ==
  /\ Len(A) = Len(C)
  /\ \A i \in 1 .. Len(A) : VecNear(A[i], C[i], atol, rtol)
=============================================================================
