------------------------------ MODULE MCStore ------------------------------
(* Bounded models of Store, for two purposes:                              *)
(*  - TLC checks, over every history up to the bounds, that Step, Failed,  *)
(*    Destroyed and Orphaned fit together: every object that was made is   *)
(*    at any time held exactly once, destroyed, or given up, never two of  *)
(*    these, and the session and the borrowed sequence are consistent;     *)
(*  - the transitions, up to the identity of objects, are printed and      *)
(*    replayed on the real crate (tour.py): each transition of the         *)
(*    specification is taken by the implementation at least once.          *)
(* A slice names the slots in use, the kinds of operation, and the bounds. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots,     \* slots that may be used
          Kinds,     \* kinds of operation
          MaxLen,    \* elements in a sequence
          MaxMade,   \* objects ever made (0: no limit)
          Faults,    \* also operations that panic
          Shown      \* print the transitions

Toks(o)  == {o}
Units(o) == 1 + (o % 2)
St == INSTANCE Store WITH NoObj <- 0

VARIABLES S, made, gone, lost
vars == <<S, made, gone, lost>>

Boxes == Slots \cap St!BoxSlots
Areas == Slots \cap St!AreaSlots
Kept  == Slots \cap St!KeptSlots
Leaks == Slots \cap St!LeakSlots
Raws  == Slots \cap St!RawSlots
Seqs  == Slots \cap St!SeqSlots

Used(c) == {s \in c : S.own[s] # 0}
Free(c) == {s \in c : S.own[s] = 0}
Live == {q \in Seqs : S.sq[q].x = 1 /\ S.busy # q}
Unmade == {q \in Seqs : S.sq[q].x = 0}
\* raw pointers remember what they came from; here by the number of the slot
FromBox(r) == r \in {"r0", "r1"}

Op(k, d) == [k |-> k, d |-> d, d2 |-> "", sk |-> "new", sr |-> <<"", 0>>, loc |-> <<"", 0>>,
             ns |-> <<>>, m |-> "", i |-> 0]
If(k, set) == IF k \in Kinds THEN set ELSE {}

(* Sources of an initializer: text, the fields of the operation.           *)
Fresh == [t |-> "@new", sk |-> "new", sr |-> <<"", 0>>]
Places(not) == {<<s, 0>> : s \in Used(Boxes \cup Areas \cup Kept \cup Leaks)}
               \cup UNION {{<<q, i>> : i \in 1..Len(S.sq[q].el)} : q \in Live \ {not}}
PlaceText(p) == IF p[2] = 0 THEN p[1] ELSE p[1] \o "." \o ToString(p[2] - 1)
\* a taken element borrows its sequence: it is no source for that one
Usable(s, dst) == ~(s \in St!KeptSlots /\ dst = S.busy /\ dst # "")
Sources(dst) ==
  {Fresh}
  \cup If("mv", {[t |-> "src=mv:" \o s, sk |-> "mv", sr |-> <<s, 0>>] :
                   s \in {s \in Used(Boxes \cup Areas \cup Kept) : Usable(s, dst)}})
  \cup If("cl", {[t |-> "src=clone:" \o PlaceText(p), sk |-> "clone", sr |-> p] :
                   p \in {p \in Places(dst) : Usable(p[1], dst)}})
  \cup If("cp", {[t |-> "src=copy:" \o PlaceText(p), sk |-> "copy", sr |-> p] :
                   p \in {p \in Places(dst) : Usable(p[1], dst)}})
Made(src) == IF src.sk = "mv" THEN <<S.own[src.sr[1]]>> ELSE <<made + 1>>
With(op, src) == [op EXCEPT !.sk = src.sk, !.sr = src.sr, !.ns = Made(src)]
Fresh1(n) == [i \in 1..n |-> made + i]
Room(q) == Len(S.sq[q].el) < MaxLen

Moved(k, p) == <<[Op(k, p[1]) EXCEPT !.d2 = p[2]], k \o " " \o p[1] \o " " \o p[2]>>

(* Every operation possible now: <<operation, text>>.                   *)
Ops ==
  If("new", {<<With(Op("new", s), src), "new " \o s \o " " \o src.t>> :
               s \in Free(Boxes \cup Areas), src \in Sources("")})
  \cup If("push", UNION {{<<With(Op("push", q), src), "push " \o q \o " " \o src.t>> : src \in Sources(q)} : q \in {q \in Live : Room(q)}})
  \cup If("ext", UNION {{<<[Op("ext", q) EXCEPT !.ns = Fresh1(n)], "ext " \o q \o " cnt=" \o ToString(n) \o " @hint @new">> :
               n \in {n \in 0..2 : Len(S.sq[q].el) + n <= MaxLen}} : q \in Live})
  \cup If("col", {<<[Op("col", q) EXCEPT !.ns = Fresh1(n), !.m = m], "col " \o q \o " " \o m \o " cnt=" \o ToString(n) \o " @hint @new">> :
               q \in Unmade, n \in {0, 2}, m \in {"u", "c"}})
  \cup If("mac", IF MaxLen < 3 THEN {} ELSE {<<[Op("mac", q) EXCEPT !.ns = Fresh1(3), !.m = "u"], "mac " \o q \o " @new">> : q \in Unmade})
  \cup If("seq", {<<[Op("seq", q) EXCEPT !.m = m], "seq " \o q \o " " \o m \o " v=0">> : q \in Unmade, m \in {"u", "c"}})
  \cup If("drop", {<<Op("drop", s), "drop " \o s>> : s \in Used(Boxes \cup Areas \cup Kept) \cup Live})
  \cup If("drop", IF S.ses.on THEN {<<Op("drop", "t"), "drop t">>} ELSE {})
  \cup If("dinit", {<<[With(Op("dinit", ""), src) EXCEPT !.ns = <<>>], "dinit " \o src.t>> : src \in Sources("")})
  \cup If("take", IF S.busy = "" /\ ~S.ses.on THEN {<<Op("take", q), "take " \o q>> : q \in Live} ELSE {})
  \cup If("next", IF S.ses.on THEN {<<[Op("next", s) EXCEPT !.i = i], "next " \o s \o " skip=" \o ToString(i)>> : s \in Free(Kept), i \in {0, 1}} ELSE {})
  \cup If("tlast", IF S.ses.on THEN {<<Op("tlast", s), "tlast " \o s>> : s \in Free(Kept)} ELSE {})
  \cup If("forget", IF S.ses.on THEN {<<Op("forget", ""), "forget">>} ELSE {})
  \cup If("tcount", IF S.ses.on THEN {<<Op("tcount", ""), "tcount @mode">>} ELSE {})
  \cup If("free", IF S.busy # "" /\ ~S.ses.on /\ Used(St!KeptSlots) = {} THEN {<<Op("free", ""), "free">>} ELSE {})
  \cup If("iter", {<<Op("iter", q), "iter " \o q \o " " \o w \o " @prog">> : q \in Live, w \in {"s", "m"}})
  \cup If("foff", {<<[Op("foff", q) EXCEPT !.i = IF p[1] = q THEN 0 ELSE 1], "foff " \o q \o " " \o PlaceText(p)>> : q \in Live, p \in Places("")})
  \cup If("mut", {<<Op("touch", ""), k \o " " \o PlaceText(p) \o " @part">> : p \in Places(""), k \in {"mut", "swp", "ctl"}})
  \cup If("leak", {Moved("leak", p) : p \in Used(Areas) \X Free(Leaks)})
  \cup If("raw", {Moved("raw", p) : p \in {p \in (Used(Boxes \cup Areas) \X Free(Raws)) : (p[1] \in Boxes) = FromBox(p[2])}})
  \cup If("raw", {Moved("unraw", p) : p \in {p \in (Used(Raws) \X Free(Boxes \cup Areas)) : (p[2] \in Boxes) = FromBox(p[1])}})
  \cup If("clone", {<<[Op("clone", a) EXCEPT !.d2 = b, !.ns = <<made + 1>>], "clone " \o a \o " " \o b>> : a \in Used(Boxes), b \in Free(Boxes)})
  \cup If("mvs", {<<[Op("mvs", a) EXCEPT !.d2 = b], "mvs " \o a \o " " \o b>> : a \in Live, b \in Unmade})

\* must panic: asking a sequence for the offset of what it does not contain
Doomed(op) == op.k = "foff" /\ op.i = 1
\* kinds in which user code may panic, and the ways to make it
Breaks(op) ==
  CASE op.k \in {"new", "push"} /\ op.sk = "new" -> {"@bad", "ff=1"}
    [] op.k \in {"new", "push"} /\ op.sk = "clone" -> {"fc=1"}
    [] op.k = "ext" /\ Len(op.ns) = 2 -> {"stop=1", "stop=2", "stop=3"}
    [] op.k = "col" /\ Len(op.ns) = 2 -> {"stop=2"}
    [] op.k = "clone" -> {"fc=1"}
    [] op.k \in {"drop", "tcount", "dinit"} -> IF St!Destroyed(S, op) = <<>> THEN {} ELSE {"fd=1"}
    [] Doomed(op) -> {""}
    [] OTHER -> {}
\* what had been appended when it panicked
Until(op, b) == IF op.k = "ext" THEN [op EXCEPT !.ns = SubSeq(@, 1, CASE b = "stop=1" -> 0 [] b = "stop=2" -> 1 [] OTHER -> 2)]
                ELSE [op EXCEPT !.ns = <<>>]

Ranges(q) == {q[i] : i \in 1..Len(q)}
Shape(T) == [b |-> {s \in St!OwnSlots : T.own[s] # 0},
             q |-> [s \in Seqs |-> <<T.sq[s].m, Len(T.sq[s].el)>>],
             t |-> IF T.ses.on THEN Len(T.ses.rest) ELSE -1, y |-> T.busy]
Name(T) == ToJson(Shape(T))
Edge(T, text, ok) ==
  IF Shown THEN PrintT(<<"EDGE", Name(S), text, IF ok THEN "ok" ELSE "no", Name(T)>>) ELSE TRUE

Fits(n) == MaxMade = 0 \/ n <= MaxMade
Highest(op) == IF op.sk = "mv" \/ op.ns = <<>> THEN made ELSE op.ns[Len(op.ns)]

Good(x) ==
  LET op == x[1]
      T == St!Step(S, op) IN
  /\ Fits(Highest(op)) /\ ~Doomed(op)
  /\ S' = T
  /\ made' = Highest(op)
  /\ gone' = gone \cup Ranges(St!Destroyed(S, op))
  /\ lost' = lost \cup Ranges(St!Orphaned(S, op))
  /\ Edge(T, x[2], TRUE)
Bad(x, b) ==
  LET op == Until(x[1], b)
      T == St!Failed(S, op)
      out == {o \in St!Held(S) : o \notin St!Held(T)} IN
  /\ Fits(Highest(op))
  /\ S' = T
  /\ made' = Highest(op)
  /\ \E g \in {{}, out} : gone' = gone \cup g /\ lost' = lost \cup (out \ g)
  /\ Edge(T, x[2] \o " " \o b, FALSE)

Init == S = St!Empty /\ made = 0 /\ gone = {} /\ lost = {}
Next == \E x \in Ops : Good(x) \/ (Faults /\ \E b \in Breaks(x[1]) : Bad(x, b))
Spec == Init /\ [][Next]_vars
View == Shape(S)

---------------------------------------------------------------------------
HeldOnce  == Len(St!HeldList(S)) = Cardinality(St!Held(S))
Conserved == /\ St!Held(S) \cup gone \cup lost = 1..made
             /\ St!Held(S) \cap gone = {}
             /\ St!Held(S) \cap lost = {}
             /\ gone \cap lost = {}
Session   == /\ (S.ses.on => S.busy = S.ses.sq)
             /\ (S.busy # "" => S.sq[S.busy].x = 1 /\ S.sq[S.busy].el = <<>>)
             /\ (S.busy = "" => ~S.ses.on /\ Used(St!KeptSlots) = {})
Places1   == \A q \in Seqs : LET o == St!Offsets(S.sq[q].el) IN
               /\ Len(o) = Len(S.sq[q].el)
               /\ \A i \in 1..Len(o) : \A j \in 1..Len(o) : i < j => o[i] < o[j]
               /\ \A i \in 1..Len(o) : o[i] < St!Occupied(S.sq[q].el)
===========================================================================
