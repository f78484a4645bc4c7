----------------------------- MODULE GridTrace -----------------------------
EXTENDS Grid, TraceData
VARIABLES t, l
AxisOk(r, o, ad, i) ==
  LET pts == PtsOf(r.X)
      col == TLCEval([j \in 1 .. Len(pts) |-> pts[j].x[ad[i] + 1]])
      lo == OptOf(r.lo, ad, i, Milli)
      hi == OptOf(r.hi, ad, i, Milli)
      m == OptOf(r.m, ad, i, LAMBDA z : z)
  IN Clause("point_count", FinArr(o, <<Count(col, m, r.D)>>))
     \cup (IF ~FinArr(o, <<Count(col, m, r.D)>>) THEN {} ELSE
           Clause("equispaced_increasing", Equispaced(o.v))
           \cup Clause("covers_with_margin", Covers(o.v, col, lo, hi)))
AxesOk(r, o, ad) ==
  IF ~IsList(o) \/ Len(o.v) # Len(ad) THEN {"one_axis_per_dimension"}
  ELSE UNION {AxisOk(r, o.v[i], ad, i) : i \in 1 .. Len(ad)}
Verdict(sc, e) ==
  CASE e.op = "autogrid" -> AxesOk(sc.r, e.o, [i \in 1 .. sc.r.P |-> i - 1])
    [] e.op = "model" ->      \* e.ads: keys in order, e.o: the axes of each
         LET want == {ResolveAd(sc.r.terms[q].ad, sc.r.P) : q \in 1 .. Len(sc.r.terms)} IN
         Clause("one_grid_per_active_dims", {e.ads[i] : i \in 1 .. Len(e.ads)} = want
                 /\ Len(e.ads) = Cardinality(want))
         \cup UNION {AxesOk(sc.r, e.o.v[i], e.ads[i]) : i \in 1 .. Len(e.ads)}
    [] OTHER -> {"terminates_normally"}
TInit == t \in 1 .. Len(Traces) /\ l = 0 /\ phase = "trace" /\ g = Nil /\ call = Nil
TNext == /\ l < Len(Traces[t].ev)
         /\ LET b == TLCEval(Verdict(Traces[t].sc, Traces[t].ev[l + 1]))
            IN Report(t, l + 1, b)
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, phase, g, call>>
=============================================================================
