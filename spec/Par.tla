-------------------------------- MODULE Par --------------------------------
(***************************************************************************)
(* C14: the worker pool.  Tasks are handed to idle workers in submission   *)
(* order and finish in any order; each result goes to its own slot, so the *)
(* caller sees them in submission order whatever the schedule.  A failing  *)
(* task makes the whole call fail, and the pool serves the next call.      *)
(* Every schedule of a round is a behaviour of this specification; the     *)
(* driver forces the real pool through it.                                 *)
(***************************************************************************)
EXTENDS Obs, Json, IOUtils, SequencesExt
CONSTANTS Ws, Ns, MaxRounds, MaxFail, Models, MaxOps, Sim
VARIABLES sc, nxt, run, slots, done
vars == <<sc, nxt, run, slots, done>>
Pick(S) == PickIf(Sim, S)
Nil == [kind |-> "nil"]
F(i) == 10 * i + 3               \* what a task computes
Empty == 0                       \* a slot not filled yet
Failed == -1
Init == sc = Nil /\ nxt = 0 /\ run = {} /\ slots = <<>> /\ done = FALSE

Start == /\ sc = Nil /\ ~Models /\ \E w \in Pick(Ws) : sc' = [kind |-> "pool", w |-> w, rounds |-> <<>>]
         /\ UNCHANGED <<nxt, run, slots, done>>
(* Many small tasks in one call; the schedule is left to the pool.         *)
Burst == /\ sc = Nil /\ ~Models
         /\ (Sim => RandomElement(1 .. 12) = 1)
         /\ \E w \in Pick(Ws), n \in Pick({200, 1000, 5000}), f \in Pick({0, 0, 3}) :
              sc' = [kind |-> "burst", w |-> w, n |-> n, fail |-> IF f = 0 THEN 0 ELSE n - f]
         /\ done' = TRUE /\ UNCHANGED <<nxt, run, slots>>
Cap == IF sc.w = 0 THEN 1 ELSE sc.w      \* without a pool: one after the other
Rnd == Len(sc.rounds)
Idle == sc # Nil /\ sc.kind = "pool" /\ ~done /\ nxt = 0
Submit == /\ Idle /\ Rnd < MaxRounds
          /\ \E n \in Pick(Ns), well \in Pick({TRUE, FALSE}) :
               \E fs \in Pick(IF well \/ n = 0 THEN {{}} ELSE {{i, j} : i \in 1 .. n, j \in IF MaxFail > 1 THEN 1 .. n ELSE {n}}) :
                 /\ sc' = [sc EXCEPT !.rounds = Append(@, [n |-> n, fail |-> SetToSortSeq(fs, <), order |-> <<>>])]
                 /\ slots' = [i \in 1 .. n |-> Empty]
          /\ nxt' = 1 /\ UNCHANGED <<run, done>>
InRound == sc # Nil /\ sc.kind = "pool" /\ nxt > 0
R == sc.rounds[Rnd]
Take == /\ InRound /\ nxt <= R.n /\ Cardinality(run) < Cap
        /\ run' = run \cup {nxt} /\ nxt' = nxt + 1 /\ UNCHANGED <<sc, slots, done>>
Complete == /\ InRound /\ run # {}
            /\ \E i \in Pick(run) :
                 /\ slots' = [slots EXCEPT ![i] = IF \E k \in 1 .. Len(R.fail) : R.fail[k] = i THEN Failed ELSE F(i)]
                 /\ run' = run \ {i}
                 /\ sc' = [sc EXCEPT !.rounds[Rnd].order = Append(@, i)]
            /\ UNCHANGED <<nxt, done>>
Over == InRound /\ nxt > R.n /\ run = {}
Return == Over /\ nxt' = 0 /\ UNCHANGED <<sc, run, slots, done>>

(* Models: the same history on a model with and one without processes.     *)
Build == /\ sc = Nil /\ Models
         /\ \E w \in Pick(Ws \ {0}), mode \in Pick({"exact", "on-the-fly", "precompute"}), D \in Pick({1, 2, 3}),
               P \in Pick({1, 2}), mix \in Pick({"lmc", "slfm", "all"}), norm \in Pick({TRUE, FALSE}), it \in Pick({1, 3}), met \in Pick(1 .. 4) :
              /\ (mode = "precompute" => P = 1)
              /\ sc' = [kind |-> "model", w |-> w, mode |-> mode, D |-> D, P |-> P, mix |-> mix, norm |-> norm,
                        it |-> it, met |-> met = 1, ops |-> <<>>]
         /\ UNCHANGED <<nxt, run, slots, done>>
Op == /\ sc # Nil /\ sc.kind = "model" /\ ~done /\ Len(sc.ops) < MaxOps
      /\ \E o \in Pick({"predict", "quant", "set", "lik", "grad", "optimize"}), k \in Pick({1, 2, 7}) :
           sc' = [sc EXCEPT !.ops = Append(@, [op |-> o, k |-> k])]
      /\ UNCHANGED <<nxt, run, slots, done>>
Finish == /\ ((Idle /\ sc.rounds # <<>> /\ Rnd = MaxRounds) \/ (sc # Nil /\ sc.kind = "model" /\ ~done /\ Len(sc.ops) = MaxOps))
          /\ done' = TRUE /\ UNCHANGED <<sc, nxt, run, slots>>
Next == Start \/ Burst \/ Submit \/ Take \/ Complete \/ Return \/ Build \/ Op \/ Finish
Emit == IF done THEN PrintT("@SC " \o ToJson(sc)) ELSE TRUE
(* What the caller gets from a finished round.                             *)
Outcome(r) == IF r.fail # <<>> THEN [k |-> "fails", v |-> r.fail]
              ELSE [k |-> "returns", v |-> [i \in 1 .. r.n |-> F(i)]]
(* Design: the schedule does not show, and every order has the feasible    *)
(* form (the k-th task to finish is among the first k - 1 + workers).      *)
ScheduleInvisible == Over => IF \E i \in 1 .. R.n : slots[i] = Failed
                              THEN Outcome(R).k = "fails" /\ {i \in 1 .. R.n : slots[i] = Failed} = ToSet(R.fail)
                              ELSE slots = Outcome(R).v
Feasible == InRound => \A k \in 1 .. Len(R.order) : R.order[k] <= k - 1 + Cap
Bounded == InRound => Cardinality(run) <= Cap
=============================================================================
