----------------------------- MODULE DocsTrace -----------------------------
EXTENDS Docs, TraceData
VARIABLES t, l
Verdict(sc, c, d, e) ==
  CASE e.op = "define" ->
       LET new == sc.cls[e.k]
           d2 == Append(d, DocsOf(sc.mem, c, d, new))
       IN Clause("defined", e.o.k = "bool")
          \cup Clause("returns_the_class", IsBool(e.o, TRUE))
          \cup (IF e.o.k # "bool" THEN {} ELSE UNION {
              IF sc.cls[k].st[j] = "abs" THEN Clause("no_member_added", e.docs[k][j] = "absent")
              ELSE Clause("behaviour_kept_" \o sc.mem[j], e.works[k][j])
                   \cup (IF ~Follows(sc.mem[j]) THEN {}
                         ELSE Clause(IF k = e.k THEN "documentation_" \o sc.mem[j] ELSE "other_classes_unchanged",
                                     e.docs[k][j] = d2[k][j]))
              : k \in 1 .. Len(d2), j \in 1 .. Len(sc.mem)})
    [] OTHER -> {"terminates_normally"}
TInit == t \in 1 .. Len(Traces) /\ l = 0 /\ Init
TNext == /\ l < Len(Traces[t].ev)
         /\ LET e == Traces[t].ev[l + 1]
                sc == Traces[t].sc IN
            /\ Report(t, l + 1, TLCEval(Verdict(sc, cls, docs, e)))
            /\ IF e.op = "define"
               THEN /\ cls' = Append(cls, sc.cls[e.k])
                    /\ docs' = Append(docs, DocsOf(sc.mem, cls, docs, sc.cls[e.k]))
               ELSE UNCHANGED <<cls, docs>>
         /\ l' = l + 1
         /\ IF l' = Len(Traces[t].ev) THEN Done(t, l') ELSE TRUE
         /\ UNCHANGED <<t, mem, fired>>
=============================================================================
