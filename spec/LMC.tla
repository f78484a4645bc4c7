-------------------------------- MODULE LMC --------------------------------
(***************************************************************************)
(* The Gaussian process model.  A model is a record M with                 *)
(*   P, D    input and output dimension                                    *)
(*   terms   sequence of terms, full-rank ("lmc"), then rank-one ("slfm"), *)
(*           then independent ("indep") ones:                              *)
(*           [kind, kern (see Kernels), ad (sorted active dimensions),     *)
(*            A (rank x D matrix), kap (D vector)]                         *)
(*   noise   D vector                                                      *)
(*   pts     the inputs, output by output: [d, x (P vector)]               *)
(*   y       the observations the covariance models, in the same order     *)
(*   grids   active dimensions -> one [lo, delta, m] per dimension         *)
(* and everything a user can ask of the model is defined from it here.     *)
(***************************************************************************)
EXTENDS Kernels

Abs(x) == IF x < 0 THEN -x ELSE x
SumOver(n, Op(_)) == FSum(TLCEval([i \in 1 .. n |-> Op(i)]))

-----------------------------------------------------------------------------
(* Inducing grid: two points beyond the data on both sides.                *)
MinOf(s) == LET f[i \in 1 .. Len(s)] == IF i = 1 THEN s[1] ELSE FMin(f[i - 1], s[i]) IN f[Len(s)]
MaxOf(s) == LET f[i \in 1 .. Len(s)] == IF i = 1 THEN s[1] ELSE FMax(f[i - 1], s[i]) IN f[Len(s)]
(* lo, hi: <<>> or one FixReal; m: <<>> or one integer; nOut outputs *)
AxisOf(col, lo, hi, m, nOut) ==
  LET l  == IF lo = <<>> THEN MinOf(col) ELSE FMin(lo[1], MinOf(col))
      h  == IF hi = <<>> THEN MaxOf(col) ELSE FMax(hi[1], MaxOf(col))
      mm == IF m = <<>> THEN Len(col) \div nOut ELSE m[1]
      dl == FDiv(FSub(h, l), FInt(mm))
      l2 == FSub(l, FAdd(dl, dl))
      h2 == FAdd(h, FAdd(dl, dl))
  IN [lo |-> l2, delta |-> FDiv(FSub(h2, l2), FInt(mm + 3)), m |-> mm + 4, hi |-> h2]
AxisPoint(g, i) == FAdd(g.lo, FMul(FInt(i - 1), g.delta))

-----------------------------------------------------------------------------
(* Cubic convolution weights of sample x on a grid axis: four pairs        *)
(* <<index (1-based), weight>>; indices outside fold onto the edge.        *)
Keys(x) ==
  LET a == FAbs(x) IN
  IF FLe(a, F1)
  THEN FAdd(FMul(FMul(FSub(FMul(FRat(3, 2), a), FRat(5, 2)), a), a), F1)
  ELSE IF FLe(a, F2)
  THEN FAdd(FMul(FSub(FMul(FAdd(FMul(FRat(-1, 2), a), FRat(5, 2)), a), FInt(4)), a), F2)
  ELSE F0
Clamp(i, m) == IF i < 1 THEN 1 ELSE IF i > m THEN m ELSE i
Weights1(g, x) ==
  LET f == TLCEval(FDiv(FSub(x, g.lo), g.delta))
      k == FFloor(f)
      r == TLCEval(FSub(f, FInt(k)))
  IN TLCEval([c \in 1 .. 4 |-> << Clamp(k + c - 1, g.m), Keys(FSub(r, FInt(c - 2))) >>])
(* on a grid with one or two axes: pairs <<index per axis, weight>> *)
WeightsOf(gs, x) ==
  IF Len(gs) = 1 THEN LET w == Weights1(gs[1], x[1]) IN
       TLCEval([c \in 1 .. 4 |-> << <<w[c][1]>>, w[c][2] >>])
  ELSE LET w == Weights1(gs[1], x[1])
           v == Weights1(gs[2], x[2])
       IN TLCEval([c \in 1 .. 16 |-> LET i == (c - 1) \div 4 + 1
                                         j == ((c - 1) % 4) + 1
                                     IN << <<w[i][1], v[j][1]>>, FMul(w[i][2], v[j][2]) >>])
(* the dense row of the interpolation matrix; second axis fastest *)
FlatIx(gs, ix) == IF Len(gs) = 1 THEN ix[1] ELSE (ix[1] - 1) * gs[2].m + ix[2]
GridSize(gs) == IF Len(gs) = 1 THEN gs[1].m ELSE gs[1].m * gs[2].m
DenseRow(gs, ws) == TLCEval([u \in 1 .. GridSize(gs) |->
    FSum([c \in 1 .. Len(ws) |-> IF FlatIx(gs, ws[c][1]) = u THEN ws[c][2] ELSE F0])])

-----------------------------------------------------------------------------
Coreg(t) == LET D == Len(t.kap) IN
  MkMat(D, D, LAMBDA a, b : FAdd(
     FSum([r \in 1 .. Len(t.A) |-> FMul(t.A[r][a], t.A[r][b])]),
     IF a = b THEN t.kap[a] ELSE F0))
Sub(x, ad) == TLCEval([i \in 1 .. Len(ad) |-> x[ad[i] + 1]])
DistBy(u) == IF Len(u) = 1 THEN FAbs(u[1]) ELSE FSqrt(FDot(u, u))
Dist(x, z, ad) == DistBy([i \in 1 .. Len(ad) |-> FSub(x[ad[i] + 1], z[ad[i] + 1])])
ActiveDims(M) == {M.terms[q].ad : q \in 1 .. Len(M.terms)}
(* kernel-like function F(k, d) of the term at every grid offset *)
Table(gs, F(_)) ==
  IF Len(gs) = 1 THEN
    LET t == TLCEval([i \in 0 .. gs[1].m - 1 |-> F(FMul(FInt(i), gs[1].delta))])
    IN TLCEval([i \in 0 .. gs[1].m - 1 |-> <<t[i]>>])
  ELSE TLCEval([i \in 0 .. gs[1].m - 1 |-> TLCEval([j \in 1 .. gs[2].m |->
         F(DistBy(<<FMul(FInt(i), gs[1].delta), FMul(FInt(j - 1), gs[2].delta)>>))])])
At(T, a, b) == IF Len(a) = 1 THEN T[Abs(a[1] - b[1])][1]
               ELSE T[Abs(a[1] - b[1])][Abs(a[2] - b[2]) + 1]
(* w' T v for two interpolated points *)
Interp2(T, w, v) == FSum(TLCEval([i \in 1 .. Len(w) |->
   FMul(w[i][2], FDot([j \in 1 .. Len(v) |-> At(T, w[i][1], v[j][1])],
                      [j \in 1 .. Len(v) |-> v[j][2]]))]))

(* Symmetric n x n matrix from its lower triangle *)
SymMat(n, Op(_, _)) ==
  LET low == TLCEval([i \in 1 .. n |-> TLCEval([j \in 1 .. i |-> Op(i, j)])])
  IN MkMat(n, n, LAMBDA i, j : IF j <= i THEN low[i][j] ELSE low[j][i])

(* everything that depends on grids and inputs only *)
Wts(M, pts) == TLCEval([ad \in ActiveDims(M) |->
    TLCEval([i \in 1 .. Len(pts) |-> WeightsOf(M.grids[ad], Sub(pts[i].x, ad))])])
(* n x n matrices of a single function of distance, exact or interpolated *)
ExactMat(M, ad, F(_)) == SymMat(Len(M.pts), LAMBDA i, j : F(Dist(M.pts[i].x, M.pts[j].x, ad)))
SkiMat(M, W, ad, F(_)) ==
  LET T == Table(M.grids[ad], F)
  IN SymMat(Len(M.pts), LAMBDA i, j : Interp2(T, W[ad][i], W[ad][j]))
(* scale by a coregionalization matrix *)
ByOutput(M, B, K) == SymMat(Len(M.pts), LAMBDA i, j : FMul(B[M.pts[i].d][M.pts[j].d], K[i][j]))

TermMats(M, approx, W) == TLCEval([q \in 1 .. Len(M.terms) |->
   LET t == M.terms[q]
       F(d) == KEval(t.kern, d)
   IN IF approx THEN SkiMat(M, W, t.ad, F) ELSE ExactMat(M, t.ad, F)])
Coregs(M) == TLCEval([q \in 1 .. Len(M.terms) |-> Coreg(M.terms[q])])
Covariance(M, Bs, Ks) == SymMat(Len(M.pts), LAMBDA i, j :
   LET c == FSum([q \in 1 .. Len(Ks) |-> FMul(Bs[q][M.pts[i].d][M.pts[j].d], Ks[q][i][j])])
   IN IF i = j THEN FAdd(c, M.noise[M.pts[i].d]) ELSE c)

(* log likelihood *)
Ln2Pi == FLn(FMul(F2, FPi))
LogLik(n, logdet, quad) ==
  FNeg(FMul(FHalf, FAdd(FAdd(logdet, quad), FMul(FInt(n), Ln2Pi))))

-----------------------------------------------------------------------------
(* Everything the answers are computed from, once per parameter setting.   *)
(* Kx exact covariance, Ks interpolated covariance, with inverses and      *)
(* pivots; ax = Kx^-1 y, as = Ks^-1 y.                                     *)
Context(M) ==
  LET n  == Len(M.pts)
      Bs == Coregs(M)
      W  == Wts(M, M.pts)
      Tx == TermMats(M, FALSE, W)
      Ts == TermMats(M, TRUE, W)
      Kx == Covariance(M, Bs, Tx)
      Ks == Covariance(M, Bs, Ts)
      sx == SolveMat(Kx, Eye(n))
      ss == SolveMat(Ks, Eye(n))
  IN TLCEval([Bs |-> Bs, W |-> W, Tx |-> Tx, Ts |-> Ts, Kx |-> Kx, Ks |-> Ks,
      ix |-> sx.x, is |-> ss.x, logdet |-> TLCEval(LogDet(sx.piv)),
      logdets |-> TLCEval(LogDet(ss.piv)),
      pivx |-> sx.piv, pivs |-> ss.piv,
      ax |-> MatVec(sx.x, M.y), as |-> MatVec(ss.x, M.y)])
QuadS(M, C) == FDot(M.y, C.as)
LL(M, C) == LogLik(Len(M.pts), C.logdet, QuadS(M, C))

(* Solves have a residual of at most 1e-4 (the default tolerance) unless   *)
(* the code said otherwise (crit), so an inner product v'K^-1 r is off by  *)
(* at most 1e-4 |K^-1 v|.                                                  *)
SolveRes(crit) == IF crit THEN F1 ELSE FRat(101, 1000000)
SolveSlack(crit, kv) == FAdd(FRat(1, 1000000), FMul(SolveRes(crit), Norm2(kv)))
QuadTol(C, crit) == SolveSlack(crit, C.as)

-----------------------------------------------------------------------------
(* Prediction at a query [d, x].                                           *)
Native(M, C, d) == FAdd(M.noise[d], FSum([q \in 1 .. Len(M.terms) |->
    FMul(C.Bs[q][d][d], KEval(M.terms[q].kern, F0))]))
Tables(M) == TLCEval([q \in 1 .. Len(M.terms) |->
    LET F(d) == KEval(M.terms[q].kern, d) IN Table(M.grids[M.terms[q].ad], F)])
CrossExact(M, C, z) == TLCEval([j \in 1 .. Len(M.pts) |->
  FSum([q \in 1 .. Len(M.terms) |->
     FMul(C.Bs[q][z.d][M.pts[j].d],
          KEval(M.terms[q].kern, Dist(z.x, M.pts[j].x, M.terms[q].ad)))])])
(* wz: per active-dimension set, the weights of the query (or grid point) *)
CrossSki(M, C, Tb, d, wz) == TLCEval([j \in 1 .. Len(M.pts) |->
  FSum([q \in 1 .. Len(M.terms) |->
     FMul(C.Bs[q][d][M.pts[j].d],
          Interp2(Tb[q], wz[M.terms[q].ad], C.W[M.terms[q].ad][j]))])])
QueryW(M, z) == TLCEval([ad \in ActiveDims(M) |-> WeightsOf(M.grids[ad], Sub(z.x, ad))])
Mean(M, C, Tb, z) == FDot(CrossSki(M, C, Tb, z.d, QueryW(M, z)), C.as)
Quad(K, v) == FDot(v, MatVec(K, v))
Explained(M, C, Tb, mode, z) ==
  CASE mode = "exact"      -> Quad(C.ix, CrossExact(M, C, z))
    [] mode = "on-the-fly" -> Quad(C.is, CrossExact(M, C, z))
    [] mode = "precompute" ->
         LET ad == CHOOSE a \in ActiveDims(M) : TRUE
             ws == QueryW(M, z)[ad]
         IN FSum(TLCEval([c \in 1 .. Len(ws) |->
              FMul(ws[c][2], Quad(C.is, CrossSki(M, C, Tb, z.d,
                   [a \in {ad} |-> << << ws[c][1], F1 >> >>])))]))
Variance(M, C, Tb, mode, z) ==
  FMax(F0, FSub(Native(M, C, z.d), Explained(M, C, Tb, mode, z)))

-----------------------------------------------------------------------------
(* Derivatives of the covariance.  approx selects the interpolated one.    *)
TermK(C, approx) == IF approx THEN C.Ts ELSE C.Tx
UnitSym(D, j, row) == MkMat(D, D, LAMBDA a, b :
   FAdd(IF a = j THEN row[b] ELSE F0, IF b = j THEN row[a] ELSE F0))
UnitDiag(D, i) == MkMat(D, D, LAMBDA a, b : IF a = i /\ b = i THEN F1 ELSE F0)
DVec(M, C, approx, q, r, j) ==
  ByOutput(M, UnitSym(M.D, j, M.terms[q].A[r]), TermK(C, approx)[q])
DDiag(M, C, approx, q, i) == ByOutput(M, UnitDiag(M.D, i), TermK(C, approx)[q])
DKern(M, C, approx, q, p) ==
  LET t == M.terms[q]
      F(d) == KGrad(t.kern, d)[p]
  IN ByOutput(M, C.Bs[q], IF approx THEN SkiMat(M, C.W, t.ad, F) ELSE ExactMat(M, t.ad, F))
DNoise(M, i) == SymMat(Len(M.pts), LAMBDA a, b : IF a = b /\ M.pts[a].d = i THEN F1 ELSE F0)
(* d log p / dt for the exact covariance *)
DLik(C, dK) == FMul(FHalf, FSub(Quad(dK, C.ax), Trace2(C.ix, dK)))
=============================================================================
