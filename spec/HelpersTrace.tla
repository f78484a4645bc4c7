--------------------------- MODULE HelpersTrace ----------------------------
(* Recorded calls of the real helpers, decided against Helpers.tla.        *)
EXTENDS Helpers, TraceData

VARIABLES t, l
tvars == <<t, l>>

Affine(x) == FInt(3 * x + 1)
(* the driver fills arrays with 10*row + column (1-D: the row number)      *)
SegObs(o, seg, w) ==
  LET n == seg[2] - seg[1] IN
  IF w = 0
  THEN ArrIsVec(o, [i \in 1 .. n |-> FInt(seg[1] + i - 1)], F0, F0)
  ELSE ArrIsMat(o, [i \in 1 .. n |-> [j \in 1 .. w |-> FInt(10 * (seg[1] + i - 1) + j - 1)]],
                w, F0, F0)
SegsObs(o, segs, w) ==
  IsList(o) /\ Len(o.v) = Len(segs)
  /\ \A i \in 1 .. Len(segs) : SegObs(o.v[i], segs[i], w)
EigEps == FRat(1, 10000000)

Verdict(c, o) ==
  CASE c.f = "tesselate" ->
        LET r == Tesselate(c.n, c.xs) IN
        IF r.k = "ValueError" THEN Clause("tesselate_rejects", RaisesA(o, "ValueError"))
        ELSE Clause("tesselate_segments", SegsObs(o, r.v, c.w))
    [] c.f = "search" ->
        LET r == SearchDesc(c.x, c.xs, c.incl) IN
        IF r.k = "ValueError" THEN Clause("search_rejects_unsorted", RaisesA(o, "ValueError"))
        ELSE Clause("search_index", IsInt(o, r.v))
    [] c.f = "beginend" ->
        LET r == BeginEnd(c.xs) IN
        Clause("begin_end", IsList(o) /\ Len(o.v) = 2
           /\ ArrIsVec(o.v[1], [i \in 1 .. Len(r.b) |-> FInt(r.b[i])], F0, F0)
           /\ ArrIsVec(o.v[2], [i \in 1 .. Len(r.e) |-> FInt(r.e[i])], F0, F0))
    [] c.f = "chunks" ->
        LET r == Chunks(Len(c.xs), c.n) IN
        Clause("chunks", SegsObs(o, r.v, 0))
    [] c.f = "map" ->
        (* entry number i (C order) of the input holds i                   *)
        Clause("map_entries",
           /\ FinArr(o, c.xs)
           /\ \A i \in 1 .. Len(o.v) :
                 o.v[i] = Affine(IF c.lay = "bcast" THEN (i - 1) % c.xs[Len(c.xs)] ELSE i - 1))
    [] c.f = "cart" ->
        LET N == ProdSeq(c.xs) IN
        Clause("cartesian",
           ArrIsMat(o, [r \in 1 .. N |-> LET ix == CartRow(c.xs, r - 1) IN
                  TLCEval([i \in 1 .. Len(c.xs) |-> FAdd(FInt(100 * i + ix[i]), IF HalfAxis(c.dt, i) THEN FHalf ELSE F0)])],
                  Len(c.xs), F0, F0))
    [] c.f = "symm" ->
        (* table entry (i,j) = xs[(i + j) mod len], f multiplies by 5, adds extra arg *)
        Clause("symm_map",
           ArrIsMat(o, [i \in 1 .. c.D |-> [j \in 1 .. c.D |->
               FInt(5 * c.xs[((i + j) % Len(c.xs)) + 1] + 2)]], c.D, F0, F0))
    [] c.f = "eig" ->
        Clause("smallest_eig", o.k = "num" /\ o.fin
           /\ PivotsPos(ToepMat(c.xs, FSub(o.v, EigEps)))
           /\ ~PivotsPos(ToepMat(c.xs, FAdd(o.v, EigEps))))

EvBad(c, e) == IF e.op # "call" THEN {"terminates_normally"} ELSE Verdict(c, e.o)

TInit == t \in 1 .. Len(Traces) /\ l = 0
         /\ kind = "trace" /\ xs = <<>> /\ call = Nil /\ ret = Nil
TNext == /\ l < Len(Traces[t].ev)
         /\ LET b == TLCEval(EvBad(Traces[t].sc, Traces[t].ev[l + 1]))
            IN Report(t, l + 1, b)
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, kind, xs, call, ret>>
=============================================================================
