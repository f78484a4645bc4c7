------------------------------ MODULE Spectral ------------------------------
(***************************************************************************)
(* C21: upper eigenvalue bounds of structured matrices (the expressions of *)
(* LinOps restricted to the types that offer a bound), and the Cholesky    *)
(* factor of positive definite Toeplitz matrices.                          *)
(***************************************************************************)
EXTENDS LinOps
CONSTANTS CholSizes, CholVals

CholValsMC == {-1000, 0, 500, 2000}
RECURSIVE IMax(_)
IMax(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == IMax(Tail(s)) IN IF s[1] > m THEN s[1] ELSE m
RowSums(A) == [i \in 1 .. Len(A) |-> ISum([j \in 1 .. Len(A[i]) |-> Abs(A[i][j])])]
(* The bound by its definition.                                            *)
RECURSIVE BoundOf(_)
BoundOf(e) ==
  CASE e.t = "toep" -> IMax(RowSums(Dense(e)))
    [] e.t = "diag" -> IMax(e.v)
    [] e.t = "id" -> 1
    [] e.t = "kron" -> BoundOf(e.a[1]) * BoundOf(e.a[2])
    [] e.t = "sum" -> ISum([k \in 1 .. Len(e.a) |-> BoundOf(e.a[k])])
    [] e.t = "sq" -> IMax([i \in 1 .. e.D |->
           ISum([j \in 1 .. e.D |-> BoundOf(e.a[SqBlock(e, i, j)])])])
(* The linear-time computation of the Toeplitz bound: row i differs from   *)
(* row i-1 by the entry that enters and the one that leaves.               *)
RECURSIVE RowTotals(_, _, _)
RowTotals(top, i, acc) ==
  IF i = Len(top) THEN acc
  ELSE RowTotals(top, i + 1,
         Append(acc, acc[Len(acc)] - Abs(top[Len(top) - i + 1]) + Abs(top[i + 1])))
ToepBound(top) == IMax(RowTotals(top, 1, <<ISum([j \in 1 .. Len(top) |-> Abs(top[j])])>>))

(* all eigenvalues positive: every elimination pivot above eps             *)
RECURSIVE PosDef(_, _, _)
PosDef(M, k, eps) ==
  IF k > Len(M) THEN TRUE
  ELSE IF ~FLt(eps, M[k][k]) THEN FALSE
  ELSE PosDef(TLCEval([i \in 1 .. Len(M) |->
          IF i <= k THEN M[i]
          ELSE LET f == TLCEval(FDiv(M[i][k], M[k][k])) IN
               TLCEval([c \in 1 .. Len(M) |-> FSub(M[i][c], FMul(f, M[k][c]))])]), k + 1, eps)
(* b I - A, with A an integer matrix *)
Shifted(b, A) == MkMat(Len(A), Len(A), LAMBDA i, j :
   IF i = j THEN FSub(b, FInt(A[i][j])) ELSE FInt(0 - A[i][j]))

-----------------------------------------------------------------------------
SNext(e) == e.t \in {"toep", "diag", "id", "kron", "sum", "sq"}
NonNeg(v) == [i \in 1 .. Len(v) |-> Abs(v[i])]
SLeaves(k) ==
  IF Big /\ k >= 0 THEN LET s == RandomElement(ProbeSeeds) IN
       {[t |-> "toep", v |-> GenVec(s, n)] : n \in Sizes}
       \cup {[t |-> "diag", v |-> NonNeg(GenVec(s, n))] : n \in Sizes}
       \cup {[t |-> "id", n |-> n] : n \in Sizes}
  ELSE UNION {{[t |-> "toep", v |-> [v EXCEPT ![Len(v)] = 0 - @]] : v \in Tops(n)} : n \in Sizes}
       \cup UNION {{[t |-> "diag", v |-> v] : v \in Tops(n)} : n \in {x \in Sizes : x <= 2}}
       \cup {[t |-> "id", n |-> n] : n \in Sizes}
SLeaf == /\ call = Nil /\ Len(stack) < MaxStack /\ nops < MaxOps
         /\ \E e \in Pick(SLeaves(nops)) : stack' = Append(stack, e)
         /\ nops' = nops + 1 /\ UNCHANGED call
SCombine == /\ call = Nil /\ nops < MaxOps
         /\ \E k \in Pick(1 .. Len(stack)) :
             \E e \in Pick({x \in Nodes(SubSeq(stack, Len(stack) - k + 1, Len(stack))) : SNext(x)}) :
                /\ Fits(e)
                /\ stack' = Append(SubSeq(stack, 1, Len(stack) - k), e)
         /\ nops' = nops + 1 /\ UNCHANGED call
SFire == /\ call = Nil /\ Len(stack) = 1
         /\ (Big => RandomElement(1 .. 2) = 1)
         /\ \E s \in Pick(ProbeSeeds) : call' = [op |-> "bound", e |-> stack[1], s |-> s]
         /\ UNCHANGED <<stack, nops>>
(* Positive definite Toeplitz matrices, entries in thousandths.            *)
ToepF(top) == MkMat(Len(top), Len(top), LAMBDA i, j : FRat(top[Abs(i - j) + 1], 1000))
(* nearly singular ones: a linear decrease from the diagonal *)
Slow(z) == LET n == RandomElement(CholSizes)
            k == RandomElement({60, 150, 700, 5000})
        IN TLCEval({TLCEval([i \in 1 .. n |-> 1000000 - k * (i - 1)])})
CholTops(z) == IF Big /\ RandomElement(1 .. 3 + z) = 1 THEN Slow(z) ELSE IF Big THEN
     LET n == RandomElement(CholSizes)
         a == RandomElement(1000 .. 9000)
     IN TLCEval({TLCEval([i \in 1 .. n |-> IF i = 1 THEN a
           ELSE (RandomElement(-1000 .. 1000) * (a \div 1000)) \div (1 + RandomElement(0 .. i))])})
   ELSE UNION {[1 .. n -> CholVals] : n \in CholSizes}
Chol == /\ call = Nil /\ stack = <<>>
        /\ \E top \in CholTops(nops) :
             /\ top[1] > 0
             /\ PosDef(ToepF(top), 1, FRat(top[1] \div 1000, 100000))
             /\ \E s \in Pick({0, 1}) : call' = [op |-> "chol", top |-> top, s |-> s]
        /\ UNCHANGED <<stack, nops>>
SpNext == SLeaf \/ SCombine \/ SFire \/ Chol
BoundIsBound == (call # Nil /\ call.op = "bound") =>
   PosDef(Shifted(FAdd(FInt(BoundOf(call.e)), FRat(1, 1000)), Dense(call.e)), 1, F0)
FastBoundIsRowSum == (call # Nil /\ call.op = "bound" /\ call.e.t = "toep") =>
   ToepBound(call.e.v) = BoundOf(call.e)
=============================================================================
