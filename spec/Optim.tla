------------------------------- MODULE Optim -------------------------------
(***************************************************************************)
(* C12: the AdaDelta optimizer as a state machine.  Each Step receives a   *)
(* gradient (chosen by the environment), moves the parameters by the       *)
(* ADADELTA rule, runs the callback and decides whether to go on.          *)
(* Gradients are integer vectors, settings are in thousandths.             *)
(***************************************************************************)
EXTENDS Obs, Kernels, Json, IOUtils
CONSTANTS Entries, Scales, Dim, MaxIts, Ratios, Drops, Steps, Defaults, Runs, Sim
(* the default settings, as documented by the constructor *)
DefRule == [rate |-> 1000, decay |-> 900, momentum |-> 500, offset |-> 100]
DefMaxIt == 100
DefRatio == 100
DefDrops == 5
EntriesMC == {-2, 0, 1, 4}
EntriesSim == {-9, -5, -2, -1, 0, 0, 1, 2, 3, 7}
StepsMC == {[rate |-> 1000, decay |-> 900, momentum |-> 500, offset |-> 100]}
StepsSim == {[rate |-> a, decay |-> b, momentum |-> c, offset |-> d] :
             a \in {1000, 100, 2000}, b \in {900, 500, 0}, c \in {0, 500, 900}, d \in {100, 10000}}
(* a rate above 1 makes the rule diverge exponentially, so that rounding   *)
(* decides where long runs go: it is used in runs of at most 20 steps only *)
VARIABLES cfg,     \* settings; Nil before they are chosen
          grads,   \* gradients seen in this run
          st,      \* loop state
          done,    \* completed runs: [grads, n]
          fired
vars == <<cfg, grads, st, done, fired>>
Nil == [t |-> "nil"]

AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE NormI(_)
NormI(v) == IF v = <<>> THEN 0
            ELSE LET r == NormI(Tail(v)) IN IF AbsI(v[1]) > r THEN AbsI(v[1]) ELSE r
(* gradient norm below ratio (thousandths) of the largest so far *)
IsDrop(norm, roll, ratio) == 1000 * norm < ratio * roll

Start(c) == [n |-> 0, roll |-> 0, left |-> c.drops, run |-> TRUE]
Advance(c, s, gr) ==
  LET nm == NormI(gr)
      roll == IF nm > s.roll THEN nm ELSE s.roll
      left == IF IsDrop(nm, roll, c.ratio) THEN s.left - 1 ELSE s.left
      n == s.n + 1
  IN [n |-> n, roll |-> roll, left |-> left, run |-> ~(n >= c.maxit \/ left <= 0)]

Pick(S) == PickIf(Sim, S)
Init == cfg = Nil /\ grads = <<>> /\ st = Nil /\ done = <<>> /\ fired = FALSE
Choose == /\ cfg = Nil
          /\ \E m \in Pick(MaxIts), r \in Pick(Ratios), d \in Pick(Drops), s \in Pick(Steps) :
               \E mo \in Pick({"opt", "model"}), vb \in Pick(IF Sim THEN {0, 1, 5} ELSE {0}),
                  sc \in Pick(Scales), df \in Pick(Defaults) :
               cfg' = [maxit |-> IF df \in {"all", "stop"} THEN DefMaxIt ELSE m,
                       ratio |-> IF df \in {"all", "stop"} THEN DefRatio ELSE r,
                       drops |-> IF df \in {"all", "stop"} THEN DefDrops ELSE d,
                       rule |-> IF df \in {"all", "rule"} THEN DefRule
                                ELSE IF df = "stop" THEN [s EXCEPT !.rate = 100] ELSE s,
                       def |-> df, on |-> mo, verb |-> vb, scale |-> sc,
                       x0 |-> [i \in 1 .. Dim |-> 700 * i - 1000]]
          /\ st' = Start(cfg') /\ UNCHANGED <<grads, done, fired>>
Step == /\ cfg # Nil /\ st # Nil /\ st.run
        /\ \E v \in Pick([1 .. Dim -> Entries]) : \E k \in Pick({1, cfg.scale}) :
             LET w == TLCEval([i \in 1 .. Dim |-> k * v[i]]) IN
             /\ grads' = Append(grads, w)
             /\ st' = Advance(cfg, st, w)
        /\ UNCHANGED <<cfg, done, fired>>
(* the optimizer is used again, with a fresh budget *)
Finish == /\ cfg # Nil /\ st # Nil /\ ~st.run
          /\ done' = Append(done, [grads |-> grads, n |-> st.n])
          /\ grads' = <<>>
          /\ st' = IF Len(done') = Runs THEN Nil ELSE Start(cfg)
          /\ fired' = (Len(done') = Runs)
          /\ UNCHANGED cfg
Next == Choose \/ Step \/ Finish
(* gradients beyond the end, in case the code goes on, are the last again *)
Emit == IF fired THEN PrintT("@SC " \o ToJson([cfg |-> cfg, runs |-> done])) ELSE TRUE

-----------------------------------------------------------------------------
(* The contract of the property, stated over the whole run.                *)
RECURSIVE MaxUpTo(_, _)
MaxUpTo(gs, i) == IF i = 0 THEN 0
  ELSE LET r == MaxUpTo(gs, i - 1) IN IF NormI(gs[i]) > r THEN NormI(gs[i]) ELSE r
DropsUpTo(c, gs, n) == Cardinality({i \in 1 .. n : IsDrop(NormI(gs[i]), MaxUpTo(gs, i), c.ratio)})
ShouldStop(c, gs, n) == n >= c.maxit \/ DropsUpTo(c, gs, n) >= c.drops
Contract == \A k \in 1 .. Len(done) :
  LET d == done[k] IN
  /\ d.n >= 1 /\ d.n = Len(d.grads)
  /\ ShouldStop(cfg, d.grads, d.n)
  /\ \A n \in 1 .. d.n - 1 : ~ShouldStop(cfg, d.grads, n)

(* the same for long runs: stopping conditions, once met, stay met *)
ContractAtEnd == fired => \A k \in 1 .. Len(done) :
  LET d == done[k] IN
  /\ d.n >= 1 /\ d.n = Len(d.grads) /\ ShouldStop(cfg, d.grads, d.n)
  /\ d.n > 1 => ~ShouldStop(cfg, d.grads, d.n - 1)

-----------------------------------------------------------------------------
(* The ADADELTA rule on FixReal vectors: state [x, gms, sms, step].        *)
RuleInit(x) == [x |-> x, gms |-> [i \in 1 .. Len(x) |-> F0], sms |-> [i \in 1 .. Len(x) |-> F0],
                step |-> [i \in 1 .. Len(x) |-> F0]]
Rule(c, s, gr) ==     \* at: where the gradient is asked; then the new state
  LET d == Milli(c.rule.decay)
      o == FRat(c.rule.offset, 1000000)
      m == Milli(c.rule.momentum)
      n == Len(s.x)
      step1 == VecScale(m, s.step)
      at == VecSub(s.x, step1)
      gv == TLCEval([i \in 1 .. n |-> FInt(gr[i])])
      d1 == FSub(F1, d)
      gms == TLCEval([i \in 1 .. n |-> FAdd(FMul(d, s.gms[i]), FMul(d1, FSq(gv[i])))])
      step2 == TLCEval([i \in 1 .. n |-> FMul(Milli(c.rule.rate),
                  FMul(FDiv(FSqrt(FAdd(s.sms[i], o)), FSqrt(FAdd(gms[i], o))), gv[i]))])
      step == VecAdd(step1, step2)
  IN [at |-> at, x |-> VecSub(at, step2), gms |-> gms, step |-> step,
      sms |-> TLCEval([i \in 1 .. n |-> FAdd(FMul(d, s.sms[i]), FMul(d1, FSq(step[i])))])]
RECURSIVE RunRule(_, _, _, _)
RunRule(c, s, gs, i) == IF i > Len(gs) THEN <<>>
  ELSE LET n == TLCEval(Rule(c, s, gs[i])) IN <<n>> \o RunRule(c, n, gs, i + 1)
=============================================================================
