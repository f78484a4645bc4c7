------------------------------ MODULE Kernels ------------------------------
(***************************************************************************)
(* Stationary kernels k(r) and their derivatives with respect to each      *)
(* parameter, in parameter order.  A kernel is a record                    *)
(*   [t |-> "rbf" | "m32" | "per" | "id", p |-> parameters, s |-> scale]   *)
(* with FixReal parameters; s = <<>> when the kernel is not scaled, else a *)
(* one-element sequence.                                                   *)
(***************************************************************************)
EXTENDS RealFns, FiniteSets

Milli(n) == FRat(n, 1000)
Millis(s) == TLCEval([i \in 1 .. Len(s) |-> Milli(s[i])])
Sqrt3 == FSqrt(FInt(3))

BaseK(k, d) ==
  CASE k.t = "rbf" -> FExp(FNeg(FMul(FMul(FHalf, FSq(d)), k.p[1])))
    [] k.t = "m32" -> LET s == FMul(FMul(d, Sqrt3), k.p[1])
                      IN FMul(FAdd(F1, s), FExp(FNeg(s)))
    [] k.t = "per" -> LET sn == FSin(FMul(FDiv(FPi, k.p[2]), d))
                      IN FExp(FNeg(FMul(FMul(FHalf, FSq(sn)), k.p[1])))
    [] k.t = "id"  -> IF d = F0 THEN F1 ELSE F0
BaseGrad(k, d) ==
  CASE k.t = "rbf" -> << FMul(FNeg(FMul(FHalf, FSq(d))), BaseK(k, d)) >>
    [] k.t = "m32" -> LET u == FMul(d, Sqrt3)
                          s == FMul(u, k.p[1])
                      IN << FNeg(FMul(FMul(s, u), FExp(FNeg(s)))) >>
    [] k.t = "per" -> LET z  == FMul(FDiv(FPi, k.p[2]), d)
                          sn == FSin(z)
                          v  == BaseK(k, d)
                      IN << FMul(FNeg(FMul(FHalf, FSq(sn))), v),
                            FMul(v, FMul(FMul(k.p[1], FMul(sn, FCos(z))),
                                         FDiv(z, k.p[2]))) >>
    [] k.t = "id"  -> <<>>
KEval(k, d) == IF k.s = <<>> THEN BaseK(k, d) ELSE FMul(k.s[1], BaseK(k, d))
KGrad(k, d) == IF k.s = <<>> THEN BaseGrad(k, d)
               ELSE LET g == BaseGrad(k, d)
                    IN Append([i \in 1 .. Len(g) |-> FMul(k.s[1], g[i])], BaseK(k, d))
KParams(k) == k.p \o k.s
NPar(k) == Len(k.p) + Len(k.s)
(* the same kernel with other parameter values, in the order of KParams *)
KWith(k, v) == [k EXCEPT !.p = SubSeq(v, 1, Len(k.p)),
                         !.s = SubSeq(v, Len(k.p) + 1, Len(v))]
=============================================================================
