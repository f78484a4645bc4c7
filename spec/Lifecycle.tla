----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* C08: the life of several models in one process.  A model owns           *)
(* parameters; answers are computed from them, some through single-slot    *)
(* memo tables that all models share:                                      *)
(*    dense  exact covariance         galpha  grid posterior mean          *)
(*    native prior variances          nu      precomputed variance         *)
(* An update (any parameter change while updates are on) empties all       *)
(* tables and rebuilds the model's operator.  The invariant Current says   *)
(* that no interleaving of changes, suspensions, mode switches and reads   *)
(* lets a model answer from outdated parameters.                           *)
(*                                                                         *)
(* C24: a model can be copied (copied, deep-copied, pickled and restored)  *)
(* at any point; the copy has the parameters, priors and fixings of the    *)
(* original at that moment, and from then on lives its own life.  The      *)
(* action property Independent says an operation on one model leaves all   *)
(* others as they were.                                                    *)
(*                                                                         *)
(* ops records the history; it is the scenario replayed on real models.    *)
(***************************************************************************)
EXTENDS ModelGen
CONSTANTS MaxModels, MaxOps, Fine,
          Copies,  \* how many copies a history may make
          Attr     \* whether priors and fixed parameters occur

VARIABLES ms,      \* models: [r, m0 (first mode), mode, susp, dirty, pri, fix]
          cache,   \* memo tables: Nil or [h |-> owner, stale |-> BOOLEAN]
          ops,     \* history
          ans      \* the latest answer: tables used and whether outdated
vars == <<phase, g, ms, cache, ops, ans>>
Tabs == {"dense", "galpha", "native", "nu"}
NoCache == [f \in Tabs |-> Nil]

-----------------------------------------------------------------------------
(* The parameters of a description as one vector: coregionalization        *)
(* vectors, diagonals, kernel parameters, noise.                           *)
RowsOf(A) == Flatten(A)
FlatVecs(r) == Flatten([q \in 1 .. Len(r.terms) |-> RowsOf(r.terms[q].A)])
FlatDiags(r) == Flatten([q \in 1 .. Len(r.terms) |-> r.terms[q].kap])
FlatKerns(r) == Flatten([q \in 1 .. Len(r.terms) |-> r.terms[q].kern.p \o r.terms[q].kern.s])
Flat(r) == TLCEval(FlatVecs(r) \o FlatDiags(r) \o FlatKerns(r) \o r.noise)
LenVec(r, q) == Len(r.terms[q].A) * r.D
NParQ(r, q) == Len(r.terms[q].kern.p) + Len(r.terms[q].kern.s)
RECURSIVE Before(_, _, _)
Before(L(_, _), r, q) == IF q = 1 THEN 0 ELSE L(r, q - 1) + Before(L, r, q - 1)
LenDiag(r, q) == r.D
(* offset (0-based) and length of each part a user can write *)
Part(r, what, q) ==
  LET Q == Len(r.terms)
      nv == Len(FlatVecs(r))
      nk == Len(FlatKerns(r))
  IN CASE what = "vec"   -> [off |-> Before(LenVec, r, q), len |-> LenVec(r, q)]
       [] what = "diag"  -> [off |-> nv + Before(LenDiag, r, q), len |-> r.D]
       [] what = "kern"  -> [off |-> nv + Q * r.D + Before(NParQ, r, q), len |-> NParQ(r, q)]
       [] what = "noise" -> [off |-> nv + Q * r.D + nk, len |-> r.D]
Writable(r) == {[what |-> "noise", q |-> 1]}
   \cup {[what |-> "vec", q |-> q] : q \in {q \in 1 .. Len(r.terms) : r.terms[q].kind # "indep"}}
   \cup {[what |-> "diag", q |-> q] : q \in {q \in 1 .. Len(r.terms) : r.terms[q].kind = "lmc"}}
   \cup {[what |-> "kern", q |-> q] : q \in {q \in 1 .. Len(r.terms) : NParQ(r, q) > 0}}
NewVal(what, i) == CASE what = "vec" -> Num(-1500, 1500, Len(ops), i, 5)
                     [] OTHER -> Num(200, 1800, Len(ops), i, 6)

-----------------------------------------------------------------------------
Hs == 1 .. Len(ms)
Hows == {"copy", "deepcopy", "pickle"}
Running == phase = "run" /\ Len(ops) < MaxOps
Log(o) == ops' = Append(ops, o)
Touch(h) == [f \in Tabs |-> IF cache[f] # Nil /\ cache[f].h = h
                            THEN [cache[f] EXCEPT !.stale = TRUE] ELSE cache[f]]
(* new parameters reach the model now, or on resume *)
Changed(h) == IF ms[h].susp
              THEN /\ cache' = Touch(h) /\ ms' = [ms EXCEPT ![h].dirty = TRUE]
              ELSE /\ cache' = NoCache /\ ms' = [ms EXCEPT ![h].dirty = FALSE]

Create == /\ phase = "ready" /\ Len(ms) < MaxModels
          /\ \E mode \in Pick(IF Fine THEN {"on-the-fly"} ELSE {"exact", "on-the-fly", "precompute"}) :
               /\ ms' = Append(ms, [r |-> g, m0 |-> mode, mode |-> mode, susp |-> FALSE, dirty |-> FALSE,
                                  pri |-> {}, fix |-> {}])
               /\ cache' = NoCache
          /\ phase' = IF Len(ms) + 1 = MaxModels THEN "run" ELSE "shape"
          /\ g' = Nil /\ UNCHANGED <<ops, ans>>
Set == /\ Running
       /\ \E h \in Pick(Hs) :
          \E w \in Pick(Writable(ms[h].r)) :
          \E how \in Pick(IF Fine THEN {"block"} ELSE {"block", "elem", "fill", "setter", "regexp"}) :
          \E i \in {Num(1, Part(ms[h].r, w.what, w.q).len, Len(ops), h, 9)} :
            LET pt == Part(ms[h].r, w.what, w.q)
                vals == CASE how = "elem" -> TLCEval(<<NewVal(w.what, 1)>>)
                          [] how = "fill" -> LET v == TLCEval(NewVal(w.what, 1))
                                             IN TLCEval([j \in 1 .. pt.len |-> v])
                          [] OTHER -> TLCEval([j \in 1 .. pt.len |-> NewVal(w.what, j)])
            IN /\ Changed(h)
               /\ Log([op |-> "set", h |-> h, how |-> how, what |-> w.what, q |-> w.q,
                       off |-> pt.off + (IF how = "elem" THEN i - 1 ELSE 0),
                       i |-> i - 1, vals |-> vals])
       /\ UNCHANGED <<phase, g, ans>>
(* a model with every parameter fixed has nothing to optimize *)
CanMove(h) == \E w \in Writable(ms[h].r) : w \notin ms[h].fix
(* changes whose result only the model knows; an optimization may be       *)
(* interrupted at any iteration                                            *)
Opaque == /\ Running
          /\ \E h \in Pick(Hs), k \in Pick({"randomize", "optimize", "shift", "interrupt"}) :
               /\ ~ms[h].susp /\ CanMove(h)
               /\ (Sim => RandomElement(1 .. 3) = 1)
               /\ Changed(h)
               /\ Log([op |-> k, h |-> h, n |-> Num(1, 3, h, Len(ops), 2)])
          /\ UNCHANGED <<phase, g, ans>>
Suspend == /\ Running
           /\ \E h \in Pick({h \in Hs : ~ms[h].susp}) :
                /\ (Sim => RandomElement(1 .. 2) = 1)
                /\ ms' = [ms EXCEPT ![h].susp = TRUE]
                /\ Log([op |-> "suspend", h |-> h])
           /\ UNCHANGED <<phase, g, cache, ans>>
Resume == /\ Running
          /\ \E h \in Pick({h \in Hs : ms[h].susp}) :
               /\ ms' = [ms EXCEPT ![h].susp = FALSE, ![h].dirty = FALSE]
               /\ cache' = NoCache
               /\ Log([op |-> "resume", h |-> h])
          /\ UNCHANGED <<phase, g, ans>>
Mode == /\ Running
        /\ \E h \in Pick(Hs), mode \in Pick({"exact", "on-the-fly", "precompute"}) :
             /\ mode # ms[h].mode
             /\ ms' = [ms EXCEPT ![h].mode = mode]
             /\ Log([op |-> "mode", h |-> h, mode |-> mode])
        /\ UNCHANGED <<phase, g, cache, ans>>
(* priors and fixings are attributes of a part, and exclude each other *)
Attribute == /\ Attr /\ Running
             /\ \E h \in Pick({h \in Hs : ~ms[h].susp}) :
                \E w \in Pick(Writable(ms[h].r)) :
                  LET has == {x \in ms[h].pri : x.what = w.what /\ x.q = w.q}
                      new == [what |-> w.what, q |-> w.q,
                              a |-> Num(500, 3000, Len(ops), h, 3), b |-> Num(500, 3000, Len(ops), h, 4)]
                  IN /\ (Sim => RandomElement(1 .. 2) = 1)
                     /\ \E k \in Pick(IF w \in ms[h].fix THEN {"free"}
                                      ELSE IF has # {} THEN {"unprior", "prior"}
                                      ELSE {"fix", "prior"}) :
                        /\ ms' = [ms EXCEPT ![h].dirty = FALSE,
                                   ![h].pri = CASE k = "prior" -> (@ \ has) \cup {new}
                                                [] k = "unprior" -> @ \ has [] OTHER -> @,
                                   ![h].fix = CASE k = "fix" -> @ \cup {w}
                                                [] k = "free" -> @ \ {w} [] OTHER -> @]
                        /\ cache' \in {cache, NoCache}
                        /\ Log([op |-> k, h |-> h] @@ new)
             /\ UNCHANGED <<phase, g, ans>>
Copy == /\ Running /\ Len(ms) < MaxModels + Copies
        /\ \E h \in Pick({h \in Hs : ~ms[h].susp}), how \in Pick(IF Fine THEN {<<"copy", "deepcopy", "pickle">>[1 + (Len(ops) % 3)]} ELSE Hows) :
             /\ (Sim => RandomElement(1 .. 2) = 1)
             /\ ms' = Append(ms, ms[h])
             /\ cache' \in {cache, NoCache}
             /\ Log([op |-> "copy", h |-> h, how |-> how])
        /\ UNCHANGED <<phase, g, ans>>
(* which tables an answer goes through *)
Uses(what, mode) ==
  CASE what = "K" -> {"dense"} [] what = "logdet" -> {"dense"}
    [] what = "lik" -> {"dense"} [] what = "objective" -> {"dense"}
    [] what \in {"quad", "op", "grad", "prior", "objgrad"} -> {}
    [] what \in {"predict", "quantiles"} ->
         {"galpha", "native"} \cup (CASE mode = "exact" -> {"dense"}
                                      [] mode = "precompute" -> {"nu"}
                                      [] OTHER -> {})
Reads == IF Fine THEN {"K", "quad", "predict"}
         ELSE {"K", "logdet", "lik", "objective", "quad", "op", "grad", "predict", "quantiles"}
              \cup (IF Attr THEN {"prior", "objgrad"} ELSE {})
Query(h) == LET r == ms[h].r IN
  TLCEval([d \in 1 .. r.D |-> TLCEval([i \in 1 .. Num(1, 2, d, Len(ops), 1) |->
     TLCEval([p \in 1 .. r.P |-> Num(-500, 6500, d + Len(ops), i, p)])])])
Read == /\ Running
        /\ \E h \in Pick({h \in Hs : ~ms[h].susp}), what \in Pick(Reads) :
             LET u == Uses(what, ms[h].mode) IN
             /\ cache' = [f \in Tabs |-> IF f \notin u THEN cache[f]
                            ELSE IF cache[f] # Nil /\ cache[f].h = h THEN cache[f]
                            ELSE [h |-> h, stale |-> FALSE]]
             /\ ans' = [outdated |-> \/ ms[h].dirty
                                     \/ \E f \in u : cache'[f].stale]
             /\ Log([op |-> "read", h |-> h, what |-> what,
                     xs |-> IF what \in {"predict", "quantiles"} THEN Query(h) ELSE <<>>])
        /\ UNCHANGED <<phase, g, ms>>
Init == GInit /\ ms = <<>> /\ cache = NoCache /\ ops = <<>> /\ ans = [outdated |-> FALSE]
Next == (Build /\ UNCHANGED <<ms, cache, ops, ans>>)
        \/ Create \/ Set \/ Opaque \/ Suspend \/ Resume \/ Mode \/ Read \/ Attribute \/ Copy

Current == ~ans.outdated
Independent == [][Len(ops') > Len(ops) =>
                    \A h \in Hs : ms'[h] # ms[h] => ops'[Len(ops')].h = h]_vars
(* a copy starts as its original is at that moment *)
CopyEqual == [][(Len(ops') > Len(ops) /\ ops'[Len(ops')].op = "copy") =>
                  ms'[Len(ms')] = ms[ops'[Len(ops')].h] /\ Len(ms') = Len(ms) + 1]_vars
(* a prior and a fixing never meet on one part; one prior per part *)
Exclusive == \A h \in Hs : /\ \A x, y \in ms[h].pri : (x.what = y.what /\ x.q = y.q) => x = y
                          /\ \A x \in ms[h].pri : [what |-> x.what, q |-> x.q] \notin ms[h].fix
(* tables never hold another model's or an old answer while updates are on *)
TablesFresh == \A f \in Tabs : cache[f] # Nil =>
                 (cache[f].stale => ms[cache[f].h].susp)
(* the exhaustive run identifies histories with the same abstract state *)
Abstract == <<phase, g, [h \in 1 .. Len(ms) |-> <<ms[h].mode, ms[h].susp, ms[h].dirty, ms[h].fix,
                                                  {<<x.what, x.q>> : x \in ms[h].pri}>>],
              cache, ans, ops = <<>> \/ ops[Len(ops)].op = "read">>
Emit == IF phase = "run" /\ ops # <<>> /\ (IF Sim THEN Len(ops) = MaxOps ELSE RandomElement(1 .. 10) = 1)
        THEN PrintT("@SC " \o ToJson([ms |-> ms, ops |-> ops, n |-> MaxModels,
                                             dbg |-> RandomElement(1 .. 3) = 1,
                                             met |-> RandomElement(1 .. 3) = 1])) ELSE TRUE
=============================================================================
