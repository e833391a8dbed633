------------------------------- MODULE Store -------------------------------
(* Containers of variable-length objects and who owns what.                *)
(*                                                                         *)
(* State S:                                                                *)
(*   own  slot -> object (NoObj if free). Slots: b* boxes, o* arena        *)
(*        pointers, k* elements taken out of a sequence and kept,          *)
(*        l* leaked references, r* raw pointers                            *)
(*   sq   s* -> [x: exists, m: indexing mode, el: elements, cap: capacity] *)
(*   ses  the taking session: [on, sq, rest: elements not yet yielded]     *)
(*   busy the sequence whose storage is still borrowed by a session        *)
(*                                                                         *)
(* Operations are records                                                  *)
(*   [k, d: slot, d2: slot, sk: source kind, sr: <<slot, index>>,          *)
(*    loc: <<slot, index>>, ns: objects constructed, m: mode, i: number]   *)
(* with k one of the names in Step below. Step gives the state after a     *)
(* successful operation, Failed the states permitted after one that        *)
(* panicked, Destroyed the objects whose values an operation destroys.     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NoObj, Toks(_), Units(_)

BoxSlots  == {"b0", "b1", "b2"}
AreaSlots == {"o0", "o1", "o2"}
KeptSlots == {"k0", "k1", "k2"}
LeakSlots == {"l0", "l1", "l2"}
RawSlots  == {"r0", "r1", "r2"}
SeqSlots  == {"s0", "s1", "s2"}
OwnSlots  == BoxSlots \cup AreaSlots \cup KeptSlots \cup LeakSlots \cup RawSlots

NoSeq == [x |-> 0, m |-> "", el |-> <<>>, cap |-> 0]
NoSes == [on |-> FALSE, sq |-> "", rest |-> <<>>]
Empty == [own |-> [s \in OwnSlots |-> NoObj], sq |-> [s \in SeqSlots |-> NoSeq],
          ses |-> NoSes, busy |-> ""]

Min2(a, b) == IF a <= b THEN a ELSE b
ElemsOf(q) == {q.el[i] : i \in 1..Len(q.el)}
\* Every object that some container is responsible for destroying (or has leaked).
Held(S) == ({S.own[s] : s \in OwnSlots} \ {NoObj})
           \cup UNION {ElemsOf(S.sq[s]) : s \in SeqSlots}
           \cup {S.ses.rest[i] : i \in 1..Len(S.ses.rest)}
\* ... as a list, so that equal objects count separately
RECURSIVE ListOf(_, _)
ListOf(S, slots) ==
  IF slots = {} THEN <<>>
  ELSE LET s == CHOOSE s \in slots : TRUE
       IN (IF s \in SeqSlots THEN S.sq[s].el
           ELSE IF S.own[s] = NoObj THEN <<>> ELSE <<S.own[s]>>) \o ListOf(S, slots \ {s})
HeldList(S) == ListOf(S, OwnSlots \cup SeqSlots) \o S.ses.rest
HeldToks(S) == UNION {Toks(o) : o \in Held(S)}

\* The object at a place: slot, or slot and element number.
At(S, loc) == IF loc[1] \in SeqSlots
              THEN IF loc[2] \in 1..Len(S.sq[loc[1]].el) THEN S.sq[loc[1]].el[loc[2]] ELSE NoObj
              ELSE S.own[loc[1]]
SetAt(S, loc, n) == IF loc[1] \in SeqSlots
                    THEN [S EXCEPT !.sq[loc[1]].el[loc[2]] = n]
                    ELSE [S EXCEPT !.own[loc[1]] = n]

\* An initializer made by moving out of a container has emptied it already.
Consume(S, op) == IF op.sk = "mv" THEN [S EXCEPT !.own[op.sr[1]] = NoObj] ELSE S

AppendAll(S, d, ns) == [S EXCEPT !.sq[d].el = @ \o ns]
NewSeq(S, d, m, ns) == [S EXCEPT !.sq[d] = [x |-> 1, m |-> m, el |-> ns, cap |-> 0]]

Step(S, op) ==
  CASE op.k = "new"  -> [Consume(S, op) EXCEPT !.own[op.d] = op.ns[1]]
    [] op.k = "push" -> AppendAll(Consume(S, op), op.d, <<op.ns[1]>>)
    [] op.k = "ext"  -> AppendAll(S, op.d, op.ns)
    [] op.k \in {"col", "mac", "seq"} -> NewSeq(S, op.d, op.m, op.ns)
    [] op.k = "drop" ->
         IF op.d = "t" THEN [S EXCEPT !.ses = NoSes]
         ELSE IF op.d \in SeqSlots THEN [S EXCEPT !.sq[op.d] = NoSeq]
         ELSE [S EXCEPT !.own[op.d] = NoObj]
    [] op.k = "dinit" -> Consume(S, op)
    [] op.k \in {"mut", "swp", "ctl"} -> SetAt(S, op.loc, op.ns[1])
    [] op.k = "take" -> [S EXCEPT !.ses = [on |-> TRUE, sq |-> op.d, rest |-> S.sq[op.d].el],
                                  !.sq[op.d].el = <<>>, !.busy = op.d]
    [] op.k = "next" ->   \* the first op.i elements are passed over
         IF Len(S.ses.rest) <= op.i THEN [S EXCEPT !.ses.rest = <<>>]
         ELSE [S EXCEPT !.own[op.d] = S.ses.rest[op.i + 1],
                        !.ses.rest = SubSeq(@, op.i + 2, Len(@))]
    [] op.k = "tlast" ->
         IF S.ses.rest = <<>> THEN [S EXCEPT !.ses = NoSes]
         ELSE [S EXCEPT !.own[op.d] = S.ses.rest[Len(S.ses.rest)], !.ses = NoSes]
    [] op.k \in {"forget", "tcount"} -> [S EXCEPT !.ses = NoSes]
    [] op.k = "free" -> [S EXCEPT !.busy = ""]
    [] op.k \in {"leak", "raw", "unraw"} ->
         [S EXCEPT !.own[op.d2] = S.own[op.d], !.own[op.d] = NoObj]
    [] op.k = "clone" -> [S EXCEPT !.own[op.d2] = op.ns[1]]
    [] op.k = "bare" -> [S EXCEPT !.own[op.d] = NoObj]
    [] op.k = "mvs" -> [S EXCEPT !.sq[op.d2] = S.sq[op.d], !.sq[op.d] = NoSeq]
    [] OTHER -> S

\* Objects destroyed by a successful operation.
Destroyed(S, op) ==
  CASE op.k = "drop" -> IF op.d = "t" THEN S.ses.rest
                        ELSE IF op.d \in SeqSlots THEN S.sq[op.d].el
                        ELSE <<S.own[op.d]>>
    [] op.k = "dinit" -> IF op.sk = "mv" THEN <<S.own[op.sr[1]]>> ELSE <<>>
    [] op.k = "tcount" -> S.ses.rest
    [] op.k = "next" -> SubSeq(S.ses.rest, 1, Min2(op.i, Len(S.ses.rest)))
    [] op.k = "tlast" -> SubSeq(S.ses.rest, 1, Len(S.ses.rest) - 1)
    [] OTHER -> <<>>
\* Objects that no container owns any more although they were not destroyed.
Orphaned(S, op) ==
  CASE op.k = "forget" -> S.ses.rest
    [] op.k = "bare" -> <<S.own[op.d]>>
    [] OTHER -> <<>>

\* Initializers built by the operation but not used (their values are released).
(* States permitted when the operation panics: in user code, because a     *)
(* source has the wrong length, or because memory was refused. Elements    *)
(* appended earlier by the same operation (op.ns) stay.                    *)
Failed(S, op) ==
  CASE op.k \in {"new", "push", "dinit"} -> Consume(S, op)
    [] op.k = "ext"  -> AppendAll(S, op.d, op.ns)
    [] op.k = "drop" -> Step(S, op)
    [] op.k \in {"forget", "tcount", "tlast"} -> Step(S, op)
    [] op.k = "bare" -> Step(S, op)
    [] op.k = "ctl"  -> IF op.ns = <<>> THEN S ELSE SetAt(S, op.loc, op.ns[1])
    [] OTHER -> S

---------------------------------------------------------------------------
(* A sequence as seen through offsets: each element starts where the one   *)
(* before ended, every element taking at least one unit.                   *)
RECURSIVE OffsetsFrom(_, _)
OffsetsFrom(el, at) ==
  IF el = <<>> THEN <<>> ELSE <<at>> \o OffsetsFrom(Tail(el), at + Units(Head(el)))
Offsets(el) == OffsetsFrom(el, 0)
RECURSIVE Occupied(_)
Occupied(el) == IF el = <<>> THEN 0 ELSE Units(Head(el)) + Occupied(Tail(el))

\* Capacity after an operation that needed `need` units.
CapOK(old, new, need) ==
  /\ new >= old
  /\ new >= need
  /\ (need <= old => new = old)
  /\ (new > old /\ old > 0 => 2 * new >= 3 * old)

(* Iterators: a view is the list of offsets still to be yielded.           *)
(* Steps: <<kind, value, size_hint lo, size_hint hi, len>>                 *)
(*  b begin, n next (value: byte offset or -1), L limited_to(value),       *)
(*  U back to the iterator before the last L, c count of a copy,           *)
(*  N<i> nth(i), l last of a copy, F all the rest of a copy                *)
Take(v, n) == SubSeq(v, 1, Min2(n, Len(v)))
Limit(v, n) == IF n = 999 THEN v ELSE Take(v, n)
Exactly(v, st) == st[3] = Len(v) /\ st[4] = Len(v) /\ st[5] = Len(v)
RECURSIVE IterOK(_, _, _, _)
IterOK(v, stack, steps, mutable) ==
  IF steps = <<>> THEN TRUE ELSE
  LET st == Head(steps)
      r == Tail(steps) IN
  CASE st[1] = "b" -> Exactly(v, st) /\ IterOK(v, stack, r, mutable)
    [] st[1] = "n" ->
         IF v = <<>> THEN st[2] = -1 /\ Exactly(v, st) /\ IterOK(v, stack, r, mutable)
         ELSE st[2] = Head(v) /\ Exactly(Tail(v), st) /\ IterOK(Tail(v), stack, r, mutable)
    [] st[1] \in {"N0", "N1", "N2", "N3", "N4"} ->
         LET i == CASE st[1] = "N0" -> 0 [] st[1] = "N1" -> 1 [] st[1] = "N2" -> 2 [] st[1] = "N3" -> 3 [] OTHER -> 4
             w == SubSeq(v, i + 2, Len(v))
         IN /\ st[2] = IF Len(v) <= i THEN -1 ELSE v[i + 1]
            /\ Exactly(w, st)
            /\ IterOK(w, stack, r, mutable)
    [] st[1] = "l" -> /\ st[2] = IF v = <<>> THEN -1 ELSE v[Len(v)]
                      /\ (~mutable => Exactly(v, st))
                      /\ IterOK(v, stack, r, mutable)
    [] st[1] = "F" -> /\ st[2] = v
                      /\ (~mutable => Exactly(v, st))
                      /\ IterOK(v, stack, r, mutable)
    [] st[1] = "L" -> LET w == Limit(v, st[2])
                      IN Exactly(w, st) /\ IterOK(w, <<v>> \o stack, r, mutable)
    [] st[1] = "U" -> Exactly(Head(stack), st) /\ IterOK(Head(stack), Tail(stack), r, mutable)
    [] st[1] = "c" -> /\ st[2] = Len(v)
                      /\ (~mutable => Exactly(v, st))
                      /\ IterOK(v, stack, r, mutable)
===========================================================================
