------------------------------ MODULE Helpers ------------------------------
(***************************************************************************)
(* The array helpers every other part is built on, as one abstract         *)
(* machine: a call is built argument by argument (Push), fired with its    *)
(* options (Fire), and returns what the definitions below say.             *)
(*   tesselate          contiguous segments of prescribed lengths          *)
(*   search_descending  boundary index in a weakly decreasing sequence     *)
(*   map_entries        element-wise map, whatever the memory layout       *)
(*   begin_end_indices  running offsets of consecutive segments            *)
(*   chunks             successive n-sized pieces, last one shorter        *)
(*   cartesian_product  row-major product, last axis fastest               *)
(*   symm_2d_list_map   map over a symmetric 2-D table                     *)
(*   smallest_eig       least eigenvalue of a symmetric Toeplitz matrix    *)
(***************************************************************************)
EXTENDS Obs, Json, IOUtils, SequencesExt

CONSTANTS MaxLen, Vals, Kinds

ValsMC  == {-1, 0, 1, 2, 3}
ValsSim == {-7, -3, -1, 0, 1, 2, 3, 5, 11}

VARIABLES kind, xs, call, ret
vars == <<kind, xs, call, ret>>

Nil == [k |-> "nil"]
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Total(s) == SumTo(s, Len(s))
NonNeg(s) == \A i \in 1 .. Len(s) : s[i] >= 0
WeaklyDecreasing(s) == \A i \in 1 .. Len(s) - 1 : s[i] >= s[i + 1]

-----------------------------------------------------------------------------
(* What each call returns.                                                 *)
Tesselate(n, lens) ==      \* segments as <<begin, end>> half-open offsets
  IF lens = <<>> \/ Total(lens) # n THEN [k |-> "ValueError"]
  ELSE [k |-> "segs", v |-> [i \in 1 .. Len(lens) |->
                               <<SumTo(lens, i - 1), SumTo(lens, i)>>]]
SearchDesc(x, s, incl) ==
  IF ~WeaklyDecreasing(s) THEN [k |-> "ValueError"]
  ELSE [k |-> "idx", v |-> Cardinality({i \in 1 .. Len(s) :
                              IF incl THEN s[i] >= x ELSE s[i] > x})]
BeginEnd(lens) == [k |-> "be", b |-> [i \in 1 .. Len(lens) |-> SumTo(lens, i - 1)],
                               e |-> [i \in 1 .. Len(lens) |-> SumTo(lens, i)]]
Chunks(len, n) ==
  LET c == (len + n - 1) \div n IN
  [k |-> "segs", v |-> [i \in 1 .. c |->
       <<(i - 1) * n, IF i * n < len THEN i * n ELSE len>>]]
(* row r (0-based) of the product of axes with the given sizes: indices    *)
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE s[1] * ProdSeq(Tail(s))
(* axis i holds 100 i + j for j = 0, 1, ..., plus a half when it is an    *)
(* axis of floating-point numbers: all, none, or every second one          *)
HalfAxis(dt, i) == dt = "float" \/ (dt = "mixed" /\ i % 2 = 0) \/ (dt = "mixed1" /\ i % 2 = 1)
CartRow(sizes, r) ==
  [i \in 1 .. Len(sizes) |->
     (r \div ProdSeq(SubSeq(sizes, i + 1, Len(sizes)))) % sizes[i]]

(* the inertia of T - mu I decides the position of mu in the spectrum      *)
ToepMat(top, mu) == MkMat(Len(top), Len(top), LAMBDA i, j :
     FSub(FInt(top[(IF i < j THEN j - i ELSE i - j) + 1]), IF i = j THEN mu ELSE F0))
PivotsPos(M) == LET p == SolveMat(M, Eye(Len(M))).piv
                IN \A i \in 1 .. Len(p) : FLt(F0, p[i])

Result(c) ==
  CASE c.f = "tesselate" -> Tesselate(c.n, c.xs)
    [] c.f = "search" -> SearchDesc(c.x, c.xs, c.incl)
    [] c.f = "beginend" -> BeginEnd(c.xs)
    [] c.f = "chunks" -> Chunks(Len(c.xs), c.n)
    [] OTHER -> Nil

-----------------------------------------------------------------------------
(* Building and firing calls.                                              *)
Small == {x \in Vals : x >= 0 /\ x <= 3}
Pushable(kd) == IF kd \in {"tesselate", "beginend"} THEN Small
                ELSE IF kd = "cart" THEN Small \ {0}
                ELSE IF kd = "map" THEN {0, 1, 2, 3} \cap Vals
                ELSE Vals
LenOf(kd) == IF kd \in {"cart", "map"} THEN 3 ELSE MaxLen

Options(kd, s) ==
  CASE kd = "tesselate" ->
         {[f |-> "tesselate", xs |-> s, n |-> n, w |-> w, it |-> it] :
            n \in {Total(s), Total(s) + 1} \cup (IF Total(s) > 0 THEN {Total(s) - 1} ELSE {}),
            w \in {0, 2}, it \in {"list", "iter", "arr"}}
    [] kd = "search" ->
         {[f |-> "search", xs |-> s, x |-> x, incl |-> b, as |-> a] :
            x \in Vals, b \in BOOLEAN, a \in {"list", "int", "float", "tiny", "big"}}
    [] kd = "beginend" ->
         {[f |-> "beginend", xs |-> s, as |-> a] : a \in {"list", "arr"}}
    [] kd = "chunks" ->
         {[f |-> "chunks", xs |-> s, n |-> n, as |-> a] :
            n \in 1 .. 4, a \in {"list", "arr"}}
    [] kd = "map" ->
         {[f |-> "map", xs |-> s, lay |-> l, dt |-> d] :
            l \in {"C", "F", "rev", "strided", "bcast"}, d \in {"int", "float"}}
    [] kd = "cart" ->
         {[f |-> "cart", xs |-> s, dt |-> d] : d \in {"int", "float", "mixed", "mixed1"}}
    [] kd = "symm" ->
         {[f |-> "symm", xs |-> s, D |-> d, dt |-> o] : d \in {1, 2, 3},
            o \in {"object", "float"}}
    [] kd = "eig" -> {[f |-> "eig", xs |-> s]}
Enabled1(kd, s) ==
  CASE kd \in {"tesselate", "search"} -> TRUE
    [] kd = "chunks" -> TRUE
    [] kd \in {"beginend", "map", "cart", "symm"} -> Len(s) >= 1
    [] kd = "eig" -> Len(s) >= 1

Init == kind \in Kinds /\ xs = <<>> /\ call = Nil /\ ret = Nil
Push == /\ call = Nil /\ Len(xs) < LenOf(kind)
        /\ \E v \in Pushable(kind) : xs' = Append(xs, v)
        /\ UNCHANGED <<kind, call, ret>>
Fire == /\ call = Nil /\ Enabled1(kind, xs)
        /\ \E c \in Options(kind, xs) : call' = c /\ ret' = Result(c)
        /\ UNCHANGED <<kind, xs>>
Next == Push \/ Fire
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What users rely on, as invariants of the machine.                       *)
SegsTile(v, n) ==      \* adjacent, in order, covering 0 .. n exactly
  /\ (v # <<>> => v[1][1] = 0 /\ v[Len(v)][2] = n)
  /\ \A i \in 1 .. Len(v) : v[i][1] <= v[i][2]
  /\ \A i \in 1 .. Len(v) - 1 : v[i][2] = v[i + 1][1]
TesselateTiles == (call # Nil /\ call.f = "tesselate" /\ ret.k = "segs") =>
  SegsTile(ret.v, call.n) /\ Len(ret.v) = Len(call.xs)
ChunksTile == (call # Nil /\ call.f = "chunks") =>
  /\ SegsTile(ret.v, Len(call.xs))
  /\ \A i \in 1 .. Len(ret.v) - 1 : ret.v[i][2] - ret.v[i][1] = call.n
SearchBoundary == (call # Nil /\ call.f = "search" /\ ret.k = "idx") =>
  \A i \in 1 .. Len(call.xs) :
     (i <= ret.v) <=> (IF call.incl THEN call.xs[i] >= call.x ELSE call.xs[i] > call.x)
BeginEndTile == (call # Nil /\ call.f = "beginend") =>
  /\ \A i \in 1 .. Len(call.xs) : ret.e[i] - ret.b[i] = call.xs[i]
  /\ \A i \in 1 .. Len(call.xs) - 1 : ret.e[i] = ret.b[i + 1]
CartBijective == (call # Nil /\ call.f = "cart") =>
  LET N == ProdSeq(call.xs) IN
  Cardinality({CartRow(call.xs, r) : r \in 0 .. N - 1}) = N

Emit == call = Nil \/ PrintT("@SC " \o ToJson(call))
=============================================================================
