------------------------------ MODULE Metrics ------------------------------
(***************************************************************************)
(* C15: recorded metrics.  A model with recording on or off goes through   *)
(* parameter writes, suspended writes, reads, predictions and              *)
(* optimizations.  Each parameter update appends one entry to every list;  *)
(* an optimization starts from empty lists.  A second model without        *)
(* recording goes through the same history.                                *)
(***************************************************************************)
EXTENDS Grad
CONSTANTS MaxOps, MaxIt
VARIABLES ops,
          run,     \* update numbers since construction or the last optimize
          lists,   \* per metric, the update number each entry describes
          clock    \* updates so far
mvars == <<phase, g, call, ops, run, lists, clock>>
Names == {"iterations", "solv_error", "grad_norms", "grad_error", "log_likely"}
Empty == [m \in Names |-> <<>>]
MInit == GInit /\ call = Nil /\ ops = <<>> /\ run = <<>> /\ lists = Empty /\ clock = 0
Gen == Build /\ UNCHANGED <<call, ops, run, lists, clock>>
Quiet == UNCHANGED <<phase, g, call>>
Live == phase = "ready" /\ Len(ops) < MaxOps
(* k updates, possibly after a reset *)
Upto(c, k) == [i \in 1 .. k |-> c + i]
Update(k, reset) ==
  /\ clock' = clock + k
  /\ run' = (IF reset THEN <<>> ELSE run) \o Upto(clock, k)
  /\ lists' = [m \in Names |-> (IF reset THEN <<>> ELSE lists[m]) \o Upto(clock, k)]
Write == /\ Live /\ \E what \in Pick({"noise", "vec", "kern"}), k \in {Len(ops)} : \E v \in {TLCEval(Num(200, 1500, k, 3, 4))} :
             ops' = Append(ops, [op |-> "write", what |-> what, v |-> v])
         /\ Update(1, FALSE) /\ Quiet
Batch == /\ Live /\ \E k \in {Len(ops)} : \E v \in {TLCEval(Num(200, 1500, k, 5, 4))} :
             ops' = Append(ops, [op |-> "batch", v |-> v])
         /\ Update(1, FALSE) /\ Quiet
Optimize == /\ Live /\ \E k \in Pick(1 .. MaxIt) :
                 /\ ops' = Append(ops, [op |-> "opt", k |-> k])
                 /\ Update(k + 1, TRUE)
            /\ Quiet
Look == /\ Live /\ \E w \in Pick({"read", "predict", "ll"}) : ops' = Append(ops, [op |-> w])
        /\ UNCHANGED <<run, lists, clock>> /\ Quiet
MFire == /\ phase = "ready" /\ Len(ops) = MaxOps
         /\ \E on \in Pick({TRUE, FALSE}), it \in Pick(Its) :
              call' = [r |-> g, on |-> on \/ (Sim /\ RandomElement(1 .. 5) > 1), it |-> it, ops |-> ops]
         /\ phase' = "done" /\ UNCHANGED <<g, ops, run, lists, clock>>
MNext == Gen \/ Write \/ Batch \/ Optimize \/ Look \/ MFire
(* Design: all lists describe exactly the updates of the current run.      *)
OneEntryPerUpdate == \A m \in Names : lists[m] = run
RunIsRecent == \A i \in 1 .. Len(run) : run[i] = clock - Len(run) + i
=============================================================================
