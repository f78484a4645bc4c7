-------------------------------- MODULE Own --------------------------------
(***************************************************************************)
(* C19: who may write what.  The caller owns objects (arrays, lists,       *)
(* dictionaries), each with a version that only the caller's own writes    *)
(* advance.  Library calls read them.  The library may keep a reference to *)
(* an object only if its documentation claims ownership (the training      *)
(* data); everything else is copied or forgotten, so an answer is          *)
(* determined by the training data, the parameters and the versions the    *)
(* query had when it was asked.                                            *)
(***************************************************************************)
EXTENDS Obs, Json, IOUtils, SequencesExt
CONSTANTS Pures, Layouts, Sizes, MaxOps, Hist, Sim
VARIABLES sc, ver, kept, deps, done
vars == <<sc, ver, kept, deps, done>>
Pick(S) == PickIf(Sim, S)
Nil == [kind |-> "nil"]
Queries == {"q1", "q2"}
Owned == {"data"}                       \* documented ownership
Init == sc = Nil /\ ver = [o \in {"data", "q1", "q2", "res", "opts"} |-> 0]
        /\ kept = {} /\ deps = {} /\ done = FALSE

Pure == /\ sc = Nil /\ \E f \in Pick(Pures), lay \in Pick(Layouts), n \in Pick(Sizes) :
             sc' = [kind |-> "pure", f |-> f, lay |-> lay, n |-> n, ops |-> <<>>]
        /\ done' = TRUE /\ UNCHANGED <<ver, kept, deps>>
Build == /\ sc = Nil /\ Hist
         /\ \E D \in Pick({1, 2, 3}), P \in Pick({1, 2}), lx \in Pick(Layouts), lq \in Pick(Layouts),
               mode \in Pick({"exact", "on-the-fly", "precompute"}), norm \in Pick({TRUE, FALSE}),
               grid \in Pick({TRUE, FALSE}), flat \in Pick({TRUE, FALSE}), mix \in Pick({"lmc", "all"}) :
              /\ (Sim \/ (D = 2 /\ P = 1 /\ lx = lq /\ grid /\ ~flat /\ mix = "all" /\ norm))
              /\ (mode = "precompute" => P = 1 /\ D <= 2) /\ (P = 2 => grid)
              /\ sc' = [kind |-> "hist", D |-> D, P |-> P, lx |-> lx, lq |-> lq, mode |-> mode, norm |-> norm,
                        grid |-> grid, flat |-> flat, mix |-> mix, ops |-> <<>>]
         /\ kept' = {"data"}             \* every other argument is copied
         /\ UNCHANGED <<ver, deps, done>>
Open == sc # Nil /\ ~done /\ Len(sc.ops) < MaxOps
Did(op) == sc' = [sc EXCEPT !.ops = Append(@, op)]
Ask == /\ Open /\ \E q \in Pick(Queries), f \in Pick({"predict", "quant"}) :
            /\ Did([op |-> f, q |-> q])
            /\ deps' = {<<"data", 0>>, <<q, ver[q]>>}
       /\ UNCHANGED <<ver, kept, done>>
Scribble == /\ Open /\ \E o \in Pick(Queries \cup {"res"}) :
                 /\ Did([op |-> "scribble", q |-> o])
                 /\ ver' = [ver EXCEPT ![o] = @ + 1]
            /\ UNCHANGED <<kept, deps, done>>
Other == /\ Open /\ \E w \in Pick({"optimize", "setnoise", "setvecs", "read"}) : Did([op |-> w, q |-> "opts"])
         /\ UNCHANGED <<ver, kept, deps, done>>
Finish == /\ sc # Nil /\ ~done /\ (Sim => Len(sc.ops) = MaxOps) /\ done' = TRUE
          /\ UNCHANGED <<sc, ver, kept, deps>>
Next == Pure \/ Build \/ Ask \/ Scribble \/ Other \/ Finish
Emit == IF done THEN PrintT("@SC " \o ToJson(sc)) ELSE TRUE
(* Design: only owned objects are kept, and no answer depends on a version *)
(* written after it was asked for, nor on what was returned.               *)
KeptIsOwned == kept \subseteq Owned
DepsAreQueries == \A d \in deps : d[1] \in Queries \cup {"data"} /\ d[2] <= ver[d[1]]
                                  /\ (d[1] = "data" => d[2] = 0)
=============================================================================
