---------------------------- MODULE MetricsTrace ----------------------------
EXTENDS Metrics, TraceData
VARIABLES t, l,
          base,    \* the model of the scenario; parameters come with each update
          hist     \* entries expected so far in this run
NoEntry == <<>>
(* the model with the parameters an update saw *)
WithParams(m, e) ==
  TLCEval([m EXCEPT
    !.terms = TLCEval([q \in 1 .. Len(m.terms) |-> [m.terms[q] EXCEPT
        !.A = MatOf(e.A.v[q]), !.kap = e.kap.v[q].v, !.kern = KWith(@, e.kp.v[q].v)]]),
    !.noise = e.noise.v])
MaxAbs(s) == MaxOf([i \in 1 .. Len(s) |-> FAbs(s[i])])
Mean_(s) == FDiv(FSum(s), FInt(Len(s)))
Names_ == <<"iterations", "solv_error", "grad_norms", "grad_error", "log_likely">>
Nums(o, n) == IsList(o) /\ Len(o.v) = n /\ \A i \in 1 .. n : o.v[i].k = "num" /\ o.v[i].fin
(* verdict on one update and the entry it adds *)
UpdV(sc, m0, h, e) ==
  LET m == WithParams(m0, e)
      c == Context(m)
      ps == ParamsOf(m)
      ex == TLCEval([i \in 1 .. Len(ps) |-> DLik(c, DK(m, c, FALSE, ps[i]))])
      ok == FinArr(e.g, <<Len(ps)>>)
      diff == [i \in 1 .. Len(ps) |-> FSub(e.g.v[i], ex[i])]
      exn == MaxAbs(ex)
      n1 == Len(h) + 1
      all == \A k \in 1 .. 5 : Nums(e.lists[Names_[k]], n1)
      last(k) == e.lists[k].v[n1].v
      recs == IsList(e.ctrs) /\ Len(e.ctrs.v) = sc.it + 1
  IN
  Clause("one_entry_per_update", all) \cup
  (IF ~all \/ ~ok THEN {} ELSE
    Clause("gradient_norm", FNear(last("grad_norms"), MaxAbs(e.g.v), TolM, TolM))
    \cup Clause("log_likelihood_entry", FNear(last("log_likely"), LL(m, c), FAdd(TolL, QuadTol(c, e.crit)), TolL))
    (* relative to the exact gradient, itself accurate to about 1e-6 *)
    \cup Clause("gradient_error", FLt(exn, FRat(1, 100)) \/
           FNear(FMul(last("grad_error"), exn), MaxAbs(diff), FMul(TolL, FAdd(F1, MaxAbs(e.g.v))), TolL))
    \cup Clause("iterations_entry",
           /\ FLe(F0, last("iterations")) /\ FLe(last("iterations"), FInt(Len(m.pts)))
           /\ (recs => FNear(last("iterations"), Mean_([i \in 1 .. Len(e.ctrs.v) |-> e.ctrs.v[i].v]), TolM, TolM)))
    \cup Clause("solver_error_entry",
           /\ FLe(F0, last("solv_error"))
           (* both relative to the largest error, or to one part in 10^14 *)
           /\ (recs => FNear(e.err.v, Mean_([i \in 1 .. Len(e.errs.v) |-> e.errs.v[i].v]), TolM, TolM)))
    \cup Clause("earlier_entries_kept", \A i \in 1 .. Len(h) : \A k \in 1 .. 5 :
           e.lists[Names_[k]].v[i].v = h[i][Names_[k]]))
Entry(e) == TLCEval([k \in {Names_[j] : j \in 1 .. 5} |->
   LET o == e.lists[k] IN IF IsList(o) /\ o.v # <<>> /\ o.v[Len(o.v)].k = "num" THEN o.v[Len(o.v)].v ELSE F0])
Verdict(sc, m0, h, e) ==
  CASE e.op = "upd" -> IF sc.on THEN UpdV(sc, m0, h, e) ELSE Clause("nothing_recorded", e.none)
    [] e.op \in {"write", "batch", "opt", "read", "predict", "ll", "build"} ->
         Clause("operation_" \o e.op, ~IsBad(e.o))
         \cup (IF ~sc.on THEN Clause("nothing_recorded", e.none) ELSE
               Clause("lists_describe_the_run", \A k \in 1 .. 5 :
                 /\ Nums(e.lists[Names_[k]], Len(h))
                 /\ \A i \in 1 .. Len(h) : e.lists[Names_[k]].v[i].v = h[i][Names_[k]]))
         \cup Clause("recording_changes_nothing", IsArr(e.mine) /\ IsArr(e.twin)
                 /\ e.mine.shape = e.twin.shape /\ e.mine.fin /\ e.twin.fin
                 /\ VecNear(e.mine.v, e.twin.v, TolL, TolL))
    [] e.op = "optstart" -> {}
    [] OTHER -> {"terminates_normally"}
TInit == /\ t \in 1 .. Len(Traces) /\ l = 0 /\ base = Nil /\ hist = <<>>
         /\ phase = "trace" /\ g = Nil /\ call = Nil /\ ops = <<>> /\ run = <<>> /\ lists = Empty /\ clock = 0
TNext == /\ l < Len(Traces[t].ev)
         /\ base' = IF l = 0 THEN ModelOf(Traces[t].sc.r) ELSE base
         /\ LET e == Traces[t].ev[l + 1] IN
            /\ Report(t, l + 1, TLCEval(Verdict(Traces[t].sc, base', hist, e)))
            /\ hist' = CASE e.op = "upd" /\ Traces[t].sc.on -> Append(hist, Entry(e))
                         [] e.op = "optstart" -> <<>>
                         [] OTHER -> hist
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, phase, g, call, ops, run, lists, clock>>
=============================================================================
