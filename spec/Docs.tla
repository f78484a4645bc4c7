-------------------------------- MODULE Docs --------------------------------
(***************************************************************************)
(* C23: the documentation-inheritance decorator.  Classes are defined one  *)
(* at a time over earlier ones, with or without the decorator; each member *)
(* is absent, undocumented or documented in each class.  docs is what a    *)
(* reader then sees on each class's own members.                           *)
(***************************************************************************)
EXTENDS Obs, Json, IOUtils
CONSTANTS Kinds, MaxMem, MaxCls, Sim
VARIABLES mem,    \* the members: sequence of kinds
          cls,    \* sequence of [bases, dec, st]
          docs,   \* per class, per member: "" or the documenting class
          fired
vars == <<mem, cls, docs, fired>>
Pick(S) == PickIf(Sim, S)
(* "special" is a method that the root class of the language documents     *)
Follows(kind) == kind \in {"method", "special", "prop", "rwprop", "docprop"}
RECURSIVE Look(_, _, _, _, _)
Look(m, c, d, k, j) ==            \* documentation of attribute j through class k
  IF c[k].st[j] # "abs" THEN d[k][j]
  ELSE IF c[k].bases # <<>> THEN Look(m, c, d, c[k].bases[1], j)
  ELSE IF m[j] = "special" THEN "root" ELSE ""
RECURSIVE FirstDoc(_, _, _, _, _)
FirstDoc(m, c, d, bs, j) ==
  IF bs = <<>> THEN ""
  ELSE LET x == Look(m, c, d, bs[1], j) IN
       IF x # "" THEN x ELSE FirstDoc(m, c, d, Tail(bs), j)
DocOf(m, c, d, new, j) ==
  CASE new.st[j] = "doc" -> "c" \o ToString(Len(c) + 1)
    [] new.st[j] = "abs" -> ""
    [] OTHER -> IF ~new.dec \/ ~Follows(m[j]) THEN ""
                ELSE IF new.bases = <<>> THEN (IF m[j] = "special" THEN "root" ELSE "")
                ELSE FirstDoc(m, c, d, new.bases, j)
DocsOf(m, c, d, new) == [j \in 1 .. Len(m) |-> DocOf(m, c, d, new, j)]
Init == mem = <<>> /\ cls = <<>> /\ docs = <<>> /\ fired = FALSE
Member == /\ cls = <<>> /\ Len(mem) < MaxMem
          /\ \E k \in Pick(Kinds) :
               /\ (k = "special" => \A i \in 1 .. Len(mem) : mem[i] # k)
               /\ mem' = Append(mem, k)
          /\ UNCHANGED <<cls, docs, fired>>
(* one base, except for the last class, which may have up to three         *)
BaseChoices(n) == {<<>>} \cup {<<i>> : i \in 1 .. n}
MultiChoices(n) == {<<i, j>> : i \in 1 .. n, j \in 1 .. n}
                   \cup (IF n < 3 THEN {} ELSE {<<1, 2, 3>>, <<3, 1, 2>>})
RECURSIVE Anc(_)
Anc(k) == {k} \cup (IF cls[k].bases = <<>> THEN {} ELSE Anc(cls[k].bases[1]))
(* a linearizable list: no base is an ancestor of another                  *)
Linear(b) == \A i \in 1 .. Len(b) : b[i] <= Len(cls) /\
               \A j \in 1 .. Len(b) : i # j => b[i] \notin Anc(b[j])
States == {"abs", "un", "doc"}
Define == /\ mem # <<>> /\ ~fired /\ Len(cls) < MaxCls
          /\ (Sim => Len(mem) > 1)
          /\ \E dec \in Pick({TRUE, FALSE}),
               st \in IF Sim THEN {TLCEval([j \in 1 .. Len(mem) |-> RandomElement(States)])}
                      ELSE [1 .. Len(mem) -> States],
               b \in Pick(BaseChoices(Len(cls)) \cup
                          (IF Len(cls) = MaxCls - 1 THEN {x \in MultiChoices(Len(cls)) : Linear(x)} ELSE {})) :
               LET new == [bases |-> b, dec |-> dec, st |-> st] IN
               /\ (Len(cls) = MaxCls - 1 /\ ~Sim => dec)
               /\ cls' = Append(cls, new)
               /\ docs' = Append(docs, DocsOf(mem, cls, docs, new))
          /\ UNCHANGED <<mem, fired>>
Fire == /\ ~fired /\ Len(cls) = MaxCls /\ fired' = TRUE /\ UNCHANGED <<mem, cls, docs>>
Next == Member \/ Define \/ Fire
Emit == IF fired THEN PrintT("@SC " \o ToJson([mem |-> mem, cls |-> cls])) ELSE TRUE
(* Design: defining a class never changes what earlier ones show, and a    *)
(* documented member keeps its own documentation.                          *)
Stable == [][\A k \in 1 .. Len(docs) : docs'[k] = docs[k]]_vars
OwnKept == \A k \in 1 .. Len(cls) : \A j \in 1 .. Len(mem) :
              cls[k].st[j] = "doc" => docs[k][j] = "c" \o ToString(k)
=============================================================================
