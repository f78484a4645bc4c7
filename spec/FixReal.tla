------------------------------ MODULE FixReal ------------------------------
(***************************************************************************)
(* Fixed-point real numbers, exact to one unit of 10^-15.                  *)
(*                                                                         *)
(* A number is a triple <<a, b, c>> with b, c \in 0 .. 10^9-1 and denotes  *)
(* (a * 10^18 + b * 10^9 + c) / 10^15.  Three limbs because TLC's integers *)
(* (and the integers of its JSON reader) have 32 bits.                     *)
(*                                                                         *)
(* The definitions below are the meaning of the operators.  TLC cannot     *)
(* evaluate those that go through Val (they overflow 32 bits), so it uses  *)
(* java/FixReal.java, which evaluates exactly the same formulas with       *)
(* java.math.BigInteger.  FixRealCheck.tla compares the two on values      *)
(* small enough for TLC, and checks the field laws and the transcendental  *)
(* functions (defined in TLA+, in RealFns.tla) against known constants.    *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

FBase == 1000000000
LOCAL B  == FBase
LOCAL U  == 1000000 * B                      \* units per 1

LOCAL Val(a) == (a[1] * B + a[2]) * B + a[3]
LOCAL Num(v) == << v \div (B * B), (v \div B) % B, v % B >>

FAdd(a, b) == Num(Val(a) + Val(b))
FSub(a, b) == Num(Val(a) - Val(b))
FNeg(a)    == Num(-Val(a))
FAbs(a)    == IF Val(a) < 0 THEN Num(-Val(a)) ELSE a
FMul(a, b) == Num((Val(a) * Val(b)) \div U)
FDiv(a, b) == Num((Val(a) * U) \div Val(b))  \* b # 0
FInt(n)    == Num(n * U)
FRat(p, q) == Num((p * U) \div q)            \* p/q, q > 0
FLe(a, b)  == Val(a) <= Val(b)
FLt(a, b)  == Val(a) < Val(b)
FFloor(a)  == Val(a) \div U                  \* an Int

RECURSIVE FSum(_)
FSum(s) == IF s = <<>> THEN FInt(0)
           ELSE FAdd(s[Len(s)], FSum(SubSeq(s, 1, Len(s) - 1)))

(* Sum of products; one rounding (floor) at the very end. *)
RECURSIVE RawDot(_, _)
RawDot(u, v) == IF u = <<>> THEN 0
           ELSE Val(u[Len(u)]) * Val(v[Len(u)])
                + RawDot(SubSeq(u, 1, Len(u) - 1), v)
FDot(u, v) == Num(RawDot(u, v) \div U)

(* |a - b| <= atol + rtol * |b| *)
FNear(a, b, atol, rtol) ==
  FLe(FAbs(FSub(a, b)), FAdd(atol, FMul(rtol, FAbs(b))))
=============================================================================
