------------------------------- MODULE LinOps -------------------------------
(***************************************************************************)
(* Matrix expressions: what a structured matrix IS (Dense) and, for the    *)
(* structured representations, how the product is computed (the Alg*       *)
(* operators, mirroring the code's algorithms with the FFT replaced by the *)
(* cyclic convolution it computes).  Entries are integers, so both sides   *)
(* are exact.  A machine builds an expression on a stack (Leaf, Combine)   *)
(* and probes it (Fire).                                                   *)
(***************************************************************************)
EXTENDS Obs, Json, IOUtils, SequencesExt

CONSTANTS MaxStack, MaxOps, MaxN, Entries, Sizes, ProbeSeeds, Big

VARIABLES stack, nops, call
vars == <<stack, nops, call>>

Nil == [t |-> "nil"]
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE ISum(_)
ISum(s) == IF s = <<>> THEN 0 ELSE s[1] + ISum(Tail(s))
RECURSIVE IProd(_)
IProd(s) == IF s = <<>> THEN 1 ELSE s[1] * IProd(Tail(s))
IMat(n, m, Op(_, _)) == TLCEval([i \in 1 .. n |-> TLCEval([j \in 1 .. m |-> Op(i, j)])])
IDot(u, v) == LET f[i \in 0 .. Len(u)] == IF i = 0 THEN 0 ELSE f[i - 1] + u[i] * v[i]
              IN f[Len(u)]
IMul(A, B) == LET m == Len(B[1]) IN
  IMat(Len(A), m, LAMBDA i, j : IDot(A[i], [k \in 1 .. Len(B) |-> B[k][j]]))
ITr(A) == IMat(Len(A[1]), Len(A), LAMBDA i, j : A[j][i])
IMulV(A, x) == TLCEval([i \in 1 .. Len(A) |-> IDot(A[i], x)])

(* entries of generated vectors and matrices, from a seed *)
Gen(s, i, j) == ((i * i * 7 + j * 5 + i * j * 3 + s * 11) % 7) - 3
GenVec(s, n) == [i \in 1 .. n |-> Gen(s, i, s)]
(* index of flat position k (0-based) along each grid axis *)
Unflat(sizes, k) == [p \in 1 .. Len(sizes) |->
     (k \div IProd(SubSeq(sizes, p + 1, Len(sizes)))) % sizes[p]]
Flat(sizes, ix) == ISum([p \in 1 .. Len(sizes) |->
     ix[p] * IProd(SubSeq(sizes, p + 1, Len(sizes)))])

-----------------------------------------------------------------------------
(* The matrix an expression denotes.                                       *)
RECURSIVE Rows(_), Cols(_), Dense(_)
Rows(e) == CASE e.t \in {"toep", "diag", "bttb"} -> Len(e.v)
             [] e.t = "id" -> e.n
             [] e.t \in {"np", "wrap"} -> Len(e.v)
             [] e.t = "kron" -> Rows(e.a[1]) * Rows(e.a[2])
             [] e.t = "bd" -> ISum([i \in 1 .. Len(e.a) |-> Rows(e.a[i])])
             [] e.t = "sum" -> Rows(e.a[1])
             [] e.t = "comp" -> Rows(e.a[1])
             [] e.t = "sq" -> e.D * Rows(e.a[1])
             [] e.t = "ski" -> Len(e.w)
Cols(e) == CASE e.t \in {"toep", "diag", "bttb"} -> Len(e.v)
             [] e.t = "id" -> e.n
             [] e.t \in {"np", "wrap"} -> Len(e.v[1])
             [] e.t = "kron" -> Cols(e.a[1]) * Cols(e.a[2])
             [] e.t = "bd" -> ISum([i \in 1 .. Len(e.a) |-> Cols(e.a[i])])
             [] e.t = "sum" -> Cols(e.a[1])
             [] e.t = "comp" -> Cols(e.a[Len(e.a)])
             [] e.t = "sq" -> e.D * Cols(e.a[1])
             [] e.t = "ski" -> Len(e.w)
(* position of global index i within consecutive segments: <<segment, offset>> *)
RECURSIVE Seg(_, _, _)
Seg(lens, i, s) == IF i <= lens[s] THEN <<s, i>> ELSE Seg(lens, i - lens[s], s + 1)
(* the symmetric block table of a "sq" node over its list of blocks *)
SqBlock(e, i, j) == ((Abs(i - j) + (IF i < j THEN i ELSE j) * e.skew) % Len(e.a)) + 1
Dense(e) ==
  CASE e.t = "toep" -> IMat(Len(e.v), Len(e.v), LAMBDA i, j : e.v[Abs(i - j) + 1])
    [] e.t = "bttb" -> IMat(Len(e.v), Len(e.v), LAMBDA i, j :
          LET a == Unflat(e.sizes, i - 1)
              b == Unflat(e.sizes, j - 1)
          IN e.v[Flat(e.sizes, [p \in 1 .. Len(e.sizes) |-> Abs(a[p] - b[p])]) + 1])
    [] e.t = "diag" -> IMat(Len(e.v), Len(e.v), LAMBDA i, j : IF i = j THEN e.v[i] ELSE 0)
    [] e.t = "id" -> IMat(e.n, e.n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
    [] e.t \in {"np", "wrap"} -> e.v
    [] e.t = "kron" ->
          LET A == Dense(e.a[1])
              B == Dense(e.a[2])
              br == Len(B)
              bc == Len(B[1])
          IN IMat(Len(A) * br, Len(A[1]) * bc, LAMBDA i, j :
               A[(i - 1) \div br + 1][(j - 1) \div bc + 1]
               * B[((i - 1) % br) + 1][((j - 1) % bc) + 1])
    [] e.t = "bd" ->
          LET Ds == TLCEval([k \in 1 .. Len(e.a) |-> Dense(e.a[k])])
              rl == [k \in 1 .. Len(e.a) |-> Len(Ds[k])]
              cl == [k \in 1 .. Len(e.a) |-> Len(Ds[k][1])]
          IN IMat(ISum(rl), ISum(cl), LAMBDA i, j :
               LET p == Seg(rl, i, 1)
                   q == Seg(cl, j, 1)
               IN IF p[1] = q[1] THEN Ds[p[1]][p[2]][q[2]] ELSE 0)
    [] e.t = "sum" ->
          LET Ds == TLCEval([k \in 1 .. Len(e.a) |-> Dense(e.a[k])])
          IN IMat(Len(Ds[1]), Len(Ds[1][1]), LAMBDA i, j :
               ISum([k \in 1 .. Len(Ds) |-> Ds[k][i][j]]))
    [] e.t = "comp" ->
          LET f[k \in 1 .. Len(e.a)] ==
                IF k = 1 THEN Dense(e.a[1]) ELSE IMul(f[k - 1], Dense(e.a[k]))
          IN f[Len(e.a)]
    [] e.t = "sq" ->
          LET Ds == TLCEval([k \in 1 .. Len(e.a) |-> Dense(e.a[k])])
              m == Len(Ds[1])
          IN IMat(e.D * m, e.D * m, LAMBDA i, j :
               Ds[SqBlock(e, (i - 1) \div m + 1, (j - 1) \div m + 1)]
                 [((i - 1) % m) + 1][((j - 1) % m) + 1])
    [] e.t = "ski" -> IMul(e.w, IMul(Dense(e.a[1]), ITr(e.w)))

-----------------------------------------------------------------------------
(* How the structured products are computed.                               *)
(* circulant embedding: extend top to length L = 2n (or any larger length) *)
CircExt(top, L) == LET n == Len(top) IN
  [k \in 0 .. L - 1 |-> IF k < n THEN top[k + 1]
                        ELSE IF L - k < n THEN top[L - k + 1] ELSE 0]
CyclicConv(c, x, L, n) ==      \* first n entries of c (*) zero-padded x
  [i \in 1 .. n |-> ISum([j \in 1 .. n |-> c[(i - j + L) % L] * x[j]])]
AlgToep(top, x) == CyclicConv(CircExt(top, 2 * Len(top)), x, 2 * Len(top), Len(top))
RECURSIVE Pow2AtLeast(_, _)
Pow2AtLeast(n, p) == IF p >= n THEN p ELSE Pow2AtLeast(n, 2 * p)
AlgBttb(top, sizes, x) ==
  LET N == IProd(sizes)
      L == [p \in 1 .. Len(sizes) |-> Pow2AtLeast(2 * sizes[p], 1)]
      Ext(d) ==         \* the n-dimensional cyclic extension at offset d
        LET r == [p \in 1 .. Len(sizes) |-> IF d[p] < sizes[p] THEN d[p] ELSE L[p] - d[p]]
        IN IF \A p \in 1 .. Len(sizes) : r[p] < sizes[p] THEN top[Flat(sizes, r) + 1] ELSE 0
  IN [i \in 1 .. N |-> ISum([j \in 1 .. N |->
        LET a == Unflat(sizes, i - 1)
            b == Unflat(sizes, j - 1)
        IN Ext([p \in 1 .. Len(sizes) |-> (a[p] - b[p] + L[p]) % L[p]]) * x[j]])]
(* two passes over a C-ordered reshape *)
AlgKron(A, B, x) ==
  LET ac == Len(A[1])
      bc == Len(B[1])
      X1 == IMat(ac, bc, LAMBDA i, j : x[(i - 1) * bc + j])      \* reshape(-1, bc)
      Y1 == IMul(B, ITr(X1))                                    \* bc side
      fl == [k \in 1 .. Len(B) * ac |-> Y1[(k - 1) \div ac + 1][((k - 1) % ac) + 1]]
      X2 == IMat(Len(B), ac, LAMBDA i, j : fl[(i - 1) * ac + j])
      Y2 == IMul(A, ITr(X2))
  IN [k \in 1 .. Len(A) * Len(B) |-> Y2[(k - 1) \div Len(B) + 1][((k - 1) % Len(B)) + 1]]
RECURSIVE Alg(_, _)
Alg(e, x) ==
  CASE e.t = "toep" -> TLCEval(AlgToep(e.v, x))
    [] e.t = "bttb" -> TLCEval(AlgBttb(e.v, e.sizes, x))
    [] e.t = "diag" -> [i \in 1 .. Len(x) |-> e.v[i] * x[i]]
    [] e.t = "id" -> x
    [] e.t \in {"np", "wrap"} -> IMulV(e.v, x)
    [] e.t = "kron" -> TLCEval(AlgKron(Dense(e.a[1]), Dense(e.a[2]), x))
    [] e.t = "bd" ->
         LET cl == [k \in 1 .. Len(e.a) |-> Cols(e.a[k])]
             off(k) == ISum(SubSeq(cl, 1, k - 1))
             f[k \in 0 .. Len(e.a)] == IF k = 0 THEN <<>>
               ELSE f[k - 1] \o Alg(e.a[k], SubSeq(x, off(k) + 1, off(k) + cl[k]))
         IN TLCEval(f[Len(e.a)])
    [] e.t = "sum" ->
         LET ys == TLCEval([k \in 1 .. Len(e.a) |-> Alg(e.a[k], x)])
         IN [i \in 1 .. Len(ys[1]) |-> ISum([k \in 1 .. Len(ys) |-> ys[k][i]])]
    [] e.t = "comp" ->
         LET f[k \in 1 .. Len(e.a) + 1] ==
               IF k = Len(e.a) + 1 THEN x ELSE Alg(e.a[k], f[k + 1])
         IN TLCEval(f[1])
    [] e.t = "sq" ->
         LET m == Rows(e.a[1]) IN
         TLCEval([i \in 1 .. e.D * m |->
           LET bi == (i - 1) \div m + 1 IN
           ISum([bj \in 1 .. e.D |->
              Alg(e.a[SqBlock(e, bi, bj)], SubSeq(x, (bj - 1) * m + 1, bj * m))[((i - 1) % m) + 1]])])
    [] e.t = "ski" -> IMulV(e.w, Alg(e.a[1], IMulV(ITr(e.w), x)))

-----------------------------------------------------------------------------
(* Building expressions.                                                   *)
Tops(n) == [1 .. n -> Entries]
ExactLeaves ==
  UNION {
    UNION {{[t |-> "toep", v |-> v] : v \in Tops(n)} : n \in {x \in Sizes : x <= 3}},
    UNION {{[t |-> "diag", v |-> v] : v \in Tops(n)} : n \in {x \in Sizes : x <= 2}},
    {[t |-> "id", n |-> n] : n \in {x \in Sizes : x <= 3}},
    {[t |-> "np", v |-> <<v>>] : v \in Tops(2)},
    {[t |-> "wrap", v |-> <<<<a>>, <<b>>>>] : a \in Entries, b \in Entries},
    {[t |-> "bttb", v |-> v, sizes |-> <<2, 2>>] :
       v \in IF 3 \in Sizes THEN Tops(4) ELSE {<<1, 3, 0, 2>>, <<2, 0, 1, 3>>}},
    {[t |-> "bttb", v |-> v, sizes |-> <<1, 2>>] : v \in Tops(2)}}
GridShapes == {<<1>>, <<2>>, <<3>>, <<5>>, <<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 2>>,
               <<4, 3>>, <<5, 2>>, <<2, 2, 2>>, <<2, 1, 3>>, <<3, 2, 2>>, <<1, 1, 1>>}
BigToep == {1, 7, 16, 17, 31, 33, 64, 65, 100, 129}
BigGrid == {<<9, 7>>, <<8, 8>>, <<17, 3>>, <<3, 17>>, <<4, 5, 3>>, <<40>>, <<2, 2, 2, 2>>}
SeedLeaves(s) ==
  UNION {
    {[t |-> "toep", v |-> GenVec(s, n)] : n \in Sizes},
    {[t |-> "diag", v |-> GenVec(s, n)] : n \in Sizes},
    {[t |-> "id", n |-> n] : n \in Sizes},
    {[t |-> "np", v |-> IMat(n, m, LAMBDA i, j : Gen(s, i, j))] : n \in Sizes, m \in Sizes},
    {[t |-> "wrap", v |-> IMat(n, m, LAMBDA i, j : Gen(s + 1, i, j))] : n \in Sizes, m \in Sizes},
    {[t |-> "bttb", v |-> GenVec(s, IProd(g)), sizes |-> g] : g \in GridShapes}}
(* the argument keeps TLC from evaluating it once and for all *)
Leaves(k) == IF Big /\ k >= 0 THEN SeedLeaves(RandomElement(ProbeSeeds)) ELSE ExactLeaves
Pick(S) == PickIf(Big, S)
BigLeaves(s) == {[t |-> "toep", v |-> GenVec(s, n)] : n \in BigToep}
          \cup {[t |-> "bttb", v |-> GenVec(s, IProd(g)), sizes |-> g] : g \in BigGrid}

Fits(e) == Rows(e) <= MaxN /\ Cols(e) <= MaxN
Same(es) == \A i \in 1 .. Len(es) : Rows(es[i]) = Rows(es[1]) /\ Cols(es[i]) = Cols(es[1])
Chain(es) == \A i \in 1 .. Len(es) - 1 : Cols(es[i]) = Rows(es[i + 1])
Square(e) == Rows(e) = Cols(e)
SkiW(e, s, n) == IMat(n, Rows(e), LAMBDA i, j :
                   IF (i + j + s) % 3 = 0 THEN Gen(s, i, j) ELSE 0)
Nodes(es) ==
  UNION {
    {[t |-> "bd", a |-> es]},
    IF Same(es) THEN {[t |-> "sum", a |-> es]} ELSE {},
    IF Chain(es) THEN {[t |-> "comp", a |-> es]} ELSE {},
    IF Len(es) = 2 THEN {[t |-> "kron", a |-> es]} ELSE {},
    IF Same(es) /\ Square(es[1]) THEN
       {[t |-> "sq", a |-> es, D |-> d, skew |-> k] : d \in {1, 2, 3}, k \in {0, 1}} ELSE {},
    IF Len(es) = 1 /\ Square(es[1]) THEN
       {[t |-> "ski", a |-> es, w |-> SkiW(es[1], s, n)] : s \in {1, 2}, n \in {1, 3, 4}} ELSE {}}

Init == stack = <<>> /\ nops = 0 /\ call = Nil
Leaf == /\ call = Nil /\ Len(stack) < MaxStack /\ nops < MaxOps
        /\ \E e \in Pick(Leaves(nops)) : stack' = Append(stack, e)
        /\ nops' = nops + 1 /\ UNCHANGED call
Combine == /\ call = Nil /\ nops < MaxOps
        /\ \E k \in Pick(1 .. Len(stack)) :
             \E e \in Pick(Nodes(SubSeq(stack, Len(stack) - k + 1, Len(stack)))) :
                /\ Fits(e)
                /\ stack' = Append(SubSeq(stack, 1, Len(stack) - k), e)
        /\ nops' = nops + 1 /\ UNCHANGED call
Fire == /\ call = Nil /\ Len(stack) = 1 /\ nops > 0
        /\ (Big => RandomElement(1 .. 3) = 1)
        /\ \E s \in Pick(ProbeSeeds) : call' = [e |-> stack[1], s |-> s]
        /\ UNCHANGED <<stack, nops>>
FireBig == /\ Big /\ call = Nil /\ stack = <<>> /\ RandomElement(1 .. 6) = 1
        /\ \E s \in Pick(ProbeSeeds) : \E e \in Pick(BigLeaves(s)) : call' = [e |-> e, s |-> s]
        /\ UNCHANGED <<stack, nops>>
Next == Leaf \/ Combine \/ Fire \/ FireBig
Spec == Init /\ [][Next]_vars

(* The representation computes the matrix it denotes, for every vector.    *)
AlgorithmIsDense ==
  call # Nil => LET x == GenVec(call.s, Cols(call.e)) IN
                Alg(call.e, x) = IMulV(Dense(call.e), x)
(* and the symmetric representations denote symmetric matrices.            *)
SymmetricOnes == (call # Nil /\ call.e.t \in {"toep", "bttb", "diag", "id"}) =>
                 LET A == Dense(call.e) IN A = ITr(A)
Emit == IF call = Nil THEN TRUE ELSE PrintT("@SC " \o ToJson(call))
=============================================================================
