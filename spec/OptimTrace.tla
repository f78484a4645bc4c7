----------------------------- MODULE OptimTrace -----------------------------
(* Runs of the real optimizer.  An event is one run: the points where the  *)
(* gradient was asked, the interleaving of gradient calls ("g") and        *)
(* callbacks ("c"), the result, and where x stood at each callback.        *)
EXTENDS Optim, TraceData
VARIABLES t, l
Near(o, v) == ArrIsVec(o, v, TolM, TolM)
Verdict(sc, e) ==
  IF e.op # "run" THEN {"terminates_normally"} ELSE
  LET r == sc.runs[e.k]
      x0 == Millis(sc.cfg.x0)
      rr == TLCEval(RunRule(sc.cfg, RuleInit(x0), r.grads, 1))
      n == r.n
  IN Clause("returns_normally", ~IsBad(e.o))
     \cup Clause("number_of_steps", Len(e.at) = n)
     \cup Clause("callback_once_per_iteration",
            Len(e.log) = 2 * Len(e.at) /\
            \A i \in 1 .. Len(e.log) : e.log[i] = (IF i % 2 = 1 THEN "g" ELSE "c"))
     \cup Clause("step_settings", \A i \in 1 .. Len(e.at) : i <= n => Near(e.at[i], rr[i].at))
     \cup Clause("result_of_last_step", Near(e.x, rr[n].x))
TInit == t \in 1 .. Len(Traces) /\ l = 0 /\ Init
TNext == /\ l < Len(Traces[t].ev)
         /\ LET b == TLCEval(Verdict(Traces[t].sc, Traces[t].ev[l + 1]))
            IN Report(t, l + 1, b)
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, cfg, grads, st, done, fired>>
=============================================================================
