------------------------------- MODULE Solve -------------------------------
(***************************************************************************)
(* C13: the iterative solver.                                              *)
(*                                                                         *)
(* Machine 1 (Loop): the solve loop over an arbitrary residual history.    *)
(* Residuals are levels 0 (below the method's own target), 1 (within the   *)
(* requested tolerance), 2 (above it).  The method stops by itself only at *)
(* level 0; every Chk iterations the loop stops early within tolerance; at *)
(* most N iterations.  Honest: whatever the history, a result above the    *)
(* tolerance is logged, and a result that met the method's target before   *)
(* the iterations ran out is not.                                          *)
(*                                                                         *)
(* Machine 2 (Systems): symmetric positive definite systems to solve.      *)
(***************************************************************************)
EXTENDS Obs, Json, IOUtils
CONSTANTS Ns, Chk, Sizes, BigSizes, Fams, Tols, Sim
VARIABLES loop, sys
vars == <<loop, sys>>
Nil == [t |-> "nil"]
Pick(S) == PickIf(Sim, S)

Start == /\ loop = Nil /\ sys = Nil
         /\ \E n \in Ns, r \in 0 .. 2 :
              loop' = [t |-> "run", n |-> n, it |-> 0, r |-> r, info |-> 0, log |-> FALSE]
         /\ UNCHANGED sys
Step == /\ loop # Nil /\ loop.t = "run" /\ loop.it < loop.n /\ loop.r # 0
        /\ \E r \in 0 .. 2 :
             LET it == loop.it + 1 IN
             loop' = [loop EXCEPT !.it = it, !.r = r,
                        !.t = IF it % Chk = 0 /\ r <= 1 THEN "early" ELSE "run"]
        /\ UNCHANGED sys
Stop == /\ loop # Nil
        /\ \/ loop.t = "early" \/ (loop.t = "run" /\ (loop.r = 0 \/ loop.it = loop.n))
        /\ LET info == IF loop.t = "run" /\ loop.r # 0 THEN 1 ELSE 0 IN
           loop' = [loop EXCEPT !.t = "done", !.info = info, !.log = (loop.r = 2 \/ info # 0)]
        /\ UNCHANGED sys
Honest == (loop # Nil /\ loop.t = "done") =>
            /\ (loop.r = 2 => loop.log)
            /\ (loop.log => loop.r # 0 /\ loop.it = loop.n)
            /\ loop.it <= loop.n

-----------------------------------------------------------------------------
H(a, b, c) == (a * 7919 + b * 104729 + c * 1299 + a * b * 31 + b * c * 17 + 12345) % 100003
Num(lo, hi, a, b, c) == IF Sim THEN RandomElement(lo .. hi) ELSE lo + (H(a, b, c) % (hi - lo + 1))
Seq_(n, Op(_)) == TLCEval([i \in 1 .. n |-> Op(i)])
(* a family member: integers in thousandths                                *)
MemberOf(f, n, c) ==
  CASE f = "lap" ->     \* shifted second difference: condition set by eps
         [fam |-> f, top |-> LET eps == Num(1, 30, n, c, 1) IN
             Seq_(n, LAMBDA i : IF i = 1 THEN 2000 + eps ELSE IF i = 2 THEN -1000 ELSE 0)]
    [] f = "toep" ->    \* diagonally dominant
         [fam |-> f, top |-> Seq_(n, LAMBDA i : IF i = 1 THEN 4000 + Num(0, 2000, n, c, 2)
                               ELSE IF i > 8 THEN 0 ELSE Num(-250, 250, i, c, 3))]
    [] f = "diag" ->    \* wide spectrum
         [fam |-> f, v |-> Seq_(n, LAMBDA i : LET p == Num(0, 5, i, c, 4) IN
              CASE p = 0 -> 10 [] p = 1 -> 300 [] p = 2 -> 1000 [] p = 3 -> 20000
                [] p = 4 -> 700000 [] p = 5 -> Num(1, 999999, i, c, 5))]
    [] f = "gram" ->    \* A'A + c I, A with integer entries
         [fam |-> f, A |-> Seq_(n, LAMBDA i : Seq_(n, LAMBDA j : Num(-3, 3, i, j, c + 6))),
          sh |-> Num(1, 500, n, c, 7)]
    [] f = "smooth" ->  \* nearly singular: slowly decaying row, tiny shift
         [fam |-> f, top |-> Seq_(n, LAMBDA i : IF i = 1 THEN 1000000 + Num(1, 20, n, c, 8)
                                   ELSE 1000000 - 1000 * (i - 1)), sh |-> 0]
RhsOf(k, n, c) ==
  CASE k = "zero" -> [i \in 1 .. n |-> 0]
    [] k = "unit" -> [i \in 1 .. n |-> IF i = 1 THEN 1 ELSE 0]
    [] k = "ones" -> [i \in 1 .. n |-> 1]
    [] k = "rand" -> Seq_(n, LAMBDA i : Num(-9, 9, i, c, 9))
    [] k = "large" -> Seq_(n, LAMBDA i : Num(-90000, 90000, i, c, 10))
System == /\ loop = Nil /\ sys = Nil
          /\ \E f \in Pick(Fams), big \in Pick(IF BigSizes = {} THEN {1} ELSE 1 .. 5) :
             \E n \in Pick(IF (big = 5 /\ f # "gram") \/ (f = "lap" /\ BigSizes # {}) THEN BigSizes ELSE Sizes) :
             \E m \in {MemberOf(f, n, n)}, k \in Pick({"unit", "ones", "rand"} \cup IF n > 100 THEN {} ELSE {"zero", "large"}) :
             \E y \in {RhsOf(k, n, n)}, mr \in Pick({TRUE, FALSE}),
                pre \in Pick({"none", "jacobi"}), vb \in Pick({TRUE, FALSE}),
                tol \in Pick(Tols), dt \in Pick({"int", "float"}) :
               sys' = [m |-> m, n |-> n, y |-> y, minres |-> mr, pre |-> pre, verbose |-> vb,
                       tol |-> tol, dt |-> dt]
          /\ UNCHANGED loop
Init == loop = Nil /\ sys = Nil
Next == Start \/ Step \/ Stop \/ System
Emit == IF sys # Nil THEN PrintT("@SC " \o ToJson(sys)) ELSE TRUE

-----------------------------------------------------------------------------
Mil(x) == FRat(x, 1000)
Abs_(x) == IF x < 0 THEN -x ELSE x
DenseK(s) ==
  LET m == s.m
      n == s.n IN
  CASE m.fam \in {"lap", "toep", "smooth"} ->
         LET top == TLCEval([i \in 1 .. n |-> Mil(m.top[i])])
         IN MkMat(n, n, LAMBDA i, j : top[Abs_(i - j) + 1])
    [] m.fam = "diag" -> MkMat(n, n, LAMBDA i, j : IF i = j THEN Mil(m.v[i]) ELSE F0)
    [] m.fam = "gram" ->
         LET A == MkMat(n, n, LAMBDA i, j : FInt(m.A[i][j]))
         IN LET G == MatMul(Transpose(A), A)
            IN MkMat(n, n, LAMBDA i, j : IF i = j THEN FAdd(G[i][j], Mil(m.sh)) ELSE G[i][j])
(* requested tolerances, as 10^-tol; 99 stands for the default *)
TolOf(s) == FRat(1, CASE s.tol = 99 -> 10000 [] s.tol = 0 -> 1 [] s.tol = 1 -> 10
                      [] s.tol = 2 -> 100 [] s.tol = 3 -> 1000 [] s.tol = 4 -> 10000 [] s.tol = 5 -> 100000 [] s.tol = 6 -> 1000000)
=============================================================================
