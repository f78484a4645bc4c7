-------------------------------- MODULE Kern --------------------------------
(***************************************************************************)
(* C16: a kernel object: its parameters, evaluations, gradients, gradient  *)
(* updates and GPy conversions in any order.  Parameters and distances are *)
(* in thousandths; the parameters are those of the base kernel followed by *)
(* the scales, innermost first.  A kernel also has units: the distances    *)
(* are taken in units of 10^-u and the scales in units of 10^us, with the  *)
(* parameters converted accordingly, which changes no value and no         *)
(* gradient once converted back; the formulas below are unit-free.         *)
(***************************************************************************)
EXTENDS Obs, Kernels, Json, IOUtils, SequencesExt
CONSTANTS KTypes, Depths, Dists, Shapes, PVals, MaxOps, Sim, Units, SUnits
UnitsSim == {0, 4, 9, 12, -4}
SUnitsSim == {0, 5, -5}
ShapesMC == {<<3>>, <<2, 2>>}
ShapesSim == {<<1>>, <<5>>, <<0>>, <<2, 3>>, <<3, 3>>, <<1, 4>>, <<2, 2, 2>>}
VARIABLES kern,   \* [t, ns (number of scales), ad, via]
          par,    \* current parameters
          ops, fired
vars == <<kern, par, ops, fired>>
Nil == [t |-> "nil"]
NBase(t) == CASE t = "per" -> 2 [] t = "id" -> 0 [] OTHER -> 1
Pick(S) == PickIf(Sim, S)
RE(S, i) == IF Sim THEN RandomElement(S)
            ELSE LET o == SetToSortSeq(S, LAMBDA a, b : a < b) IN o[(i % Len(o)) + 1]
Vals(n, i) == TLCEval([j \in 1 .. n |-> RE(PVals, i + j)])
Init == kern = Nil /\ par = <<>> /\ ops = <<>> /\ fired = FALSE
Make == /\ kern = Nil
        /\ \E t \in Pick(KTypes), ns \in Pick(Depths), ad \in Pick({0, 1, 2}),
              u \in Pick(Units), us \in Pick(SUnits) :
             kern' = [t |-> t, ns |-> ns, ad |-> ad, u |-> u, us |-> us, p0 |-> Vals(NBase(t) + ns, 0)]
        /\ par' = kern'.p0 /\ UNCHANGED <<ops, fired>>
Live == kern # Nil /\ Len(ops) < MaxOps /\ ~fired
Size(sh) == Prod(sh)
DistsOf(sh) == TLCEval([i \in 1 .. Size(sh) |-> RE(Dists, i + Len(ops))])
Log(o) == ops' = Append(ops, o)
Ask == /\ Live
       /\ \E f \in Pick({"eval", "grad"}), sh \in Pick(Shapes), dt \in Pick({"C", "F"}) :
            Log([op |-> f, sh |-> sh, lay |-> dt, d |-> DistsOf(sh)])
       /\ UNCHANGED <<kern, par, fired>>
Write == /\ Live /\ Len(par) > 0
         /\ \E i \in Pick(1 .. Len(par)), v \in Pick(PVals) :
              /\ par' = [par EXCEPT ![i] = v]
              /\ Log([op |-> "set", i |-> i, v |-> v])
         /\ UNCHANGED <<kern, fired>>
Update == /\ Live /\ Len(par) > 0
          /\ Log([op |-> "update", v |-> TLCEval([i \in 1 .. Len(par) |-> IF Sim THEN RandomElement(-5000 .. 5000) ELSE 1234 * i - 1999])])
          /\ UNCHANGED <<kern, par, fired>>
Gpy == /\ Live /\ kern.ns = 0 /\ kern.t # "id"
       /\ (Sim => RandomElement(1 .. 3) = 1)
       /\ Log([op |-> "gpy", d |-> DistsOf(<<4>>)])
       /\ UNCHANGED <<kern, par, fired>>
Fire == /\ kern # Nil /\ ops # <<>> /\ ~fired /\ Len(ops) = MaxOps
        /\ fired' = TRUE /\ UNCHANGED <<kern, par, ops>>
Next == Make \/ Ask \/ Write \/ Update \/ Gpy \/ Fire
Emit == IF fired THEN PrintT("@SC " \o ToJson([kern |-> kern, ops |-> ops])) ELSE TRUE

-----------------------------------------------------------------------------
Base(k, v) == [t |-> k.t, p |-> SubSeq(v, 1, NBase(k.t)), s |-> <<>>]
ScaleProd(s) == IF s = <<>> THEN F1 ELSE IF Len(s) = 1 THEN s[1] ELSE FMul(s[1], s[2])
Scls(k, v) == SubSeq(v, NBase(k.t) + 1, Len(v))
NEval(k, v, d) == FMul(ScaleProd(Scls(k, v)), BaseK(Base(k, v), d))
NGrad(k, v, d) ==
  LET s == Scls(k, v)
      gr == BaseGrad(Base(k, v), d)
      b == BaseK(Base(k, v), d)
  IN [i \in 1 .. Len(gr) |-> FMul(ScaleProd(s), gr[i])]
     \o [i \in 1 .. Len(s) |-> FMul(b, IF Len(s) = 1 THEN F1 ELSE s[3 - i])]
(* Design, checked exhaustively: one at distance zero, bounded by the      *)
(* scale, and the gradient is the derivative (central difference).         *)
FDOk(k, v, d, i) ==
  LET h == FRat(1, 1000000)
      up == NEval(k, [v EXCEPT ![i] = FAdd(@, h)], d)
      dn == NEval(k, [v EXCEPT ![i] = FSub(@, h)], d)
  IN FNear(FDiv(FSub(up, dn), FAdd(h, h)), NGrad(k, v, d)[i], Tol3, Tol3)
KernelSane ==
  (~Sim /\ kern # Nil /\ Len(ops) = 1) =>
    LET v == Millis(par) IN
    /\ NEval(kern, v, F0) = ScaleProd(Scls(kern, v))
    /\ \A d \in Dists :
         /\ FLe(NEval(kern, v, Milli(d)), FAdd(ScaleProd(Scls(kern, v)), Tol))
         /\ \A i \in 1 .. Len(v) : FDOk(kern, v, Milli(d), i)
=============================================================================
