------------------------------- MODULE MCIter -------------------------------
(* A sequence's iterators as a state machine, and all short programs over  *)
(* them. An iterator is what it still yields: the elements at+1..at+left   *)
(* of a sequence. Shared iterators may be limited to a number of elements  *)
(* and given up for the one before (the limited one is a copy); mutable    *)
(* ones are consumed by that, and by counting and exhausting.              *)
(* TLC checks, on every program up to the bound, that the machine does     *)
(* what Store's IterOK demands of an implementation and that limits never  *)
(* reveal more elements; every program is printed for the replay on the    *)
(* real crate (tour.py).                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxLen, Depth, Shown

St == INSTANCE Store WITH NoObj <- 0, Toks <- LAMBDA o : {o}, Units <- LAMBDA o : 1

VARIABLES n,      \* elements in the sequence
          mut,    \* a mutable iterator
          at, left, stack,
          over,   \* consumed
          prog, steps
vars == <<n, mut, at, left, stack, over, prog, steps>>

\* elements are named by their number; positions are what is reported of them
Pos(i) == 8 * i
View(a, l) == [i \in 1..l |-> Pos(a + i)]
Report(k, v, a, l) == <<k, v, l, l, l>>
Gone(k, v) == <<k, v, 0, 0, 0>>

Init == /\ n \in 0..MaxLen /\ mut \in BOOLEAN
        /\ at = 0 /\ left = n /\ stack = <<>> /\ over = FALSE /\ prog = ""
        /\ steps = <<Report("b", 0, 0, n)>>

Go(text, a, l, st, ov, step) ==
  /\ at' = a /\ left' = l /\ stack' = st /\ over' = ov
  /\ prog' = prog \o text /\ steps' = Append(steps, step)
  /\ UNCHANGED <<n, mut>>
  /\ (Shown /\ (ov \/ Len(steps) = Depth) => PrintT(<<"PROG", n, IF mut THEN "m" ELSE "s", prog \o text>>))

Step ==
  \/ IF left = 0 THEN Go("n", at, 0, stack, FALSE, Report("n", -1, at, 0))
     ELSE Go("n", at + 1, left - 1, stack, FALSE, Report("n", Pos(at + 1), at, left - 1))
  \/ \E i \in 0..2 :
       LET name == <<"N0", "N1", "N2">>[i + 1] IN
       IF left <= i THEN Go(name, at + left, 0, stack, FALSE, Report(name, -1, at, 0))
       ELSE Go(name, at + i + 1, left - i - 1, stack, FALSE, Report(name, Pos(at + i + 1), at, left - i - 1))
  \/ \E m \in {0, 1, 2, 999} :
       LET w == IF m < left THEN m ELSE left
       IN Go("L" \o ToString(m), at, w, IF mut THEN <<>> ELSE <<<<at, left>>>> \o stack, FALSE, Report("L", m, at, w))
  \/ /\ stack # <<>>
     /\ LET t == Head(stack) IN Go("U", t[1], t[2], Tail(stack), FALSE, Report("U", 0, t[1], t[2]))
  \/ LET v == IF left = 0 THEN -1 ELSE Pos(at + left)
     IN Go("l", at, left, stack, mut, IF mut THEN Gone("l", v) ELSE Report("l", v, at, left))
  \/ Go("c", at, left, stack, mut, IF mut THEN Gone("c", left) ELSE Report("c", left, at, left))
  \/ Go("F", at, left, stack, mut, IF mut THEN Gone("F", View(at, left)) ELSE Report("F", View(at, left), at, left))
Next == ~over /\ Len(steps) <= Depth /\ Step
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Agrees == St!IterOK(View(0, n), <<>>, steps, mut)
Bounded == /\ at + left <= n
           /\ \A i \in 1..Len(stack) : stack[i][1] <= at /\ stack[i][1] + stack[i][2] >= at + left
\* Reporting an element more, or fewer, is not accepted.
Strict == \A i \in 1..Len(steps) :
  LET q == steps[i]
      bad == [steps EXCEPT ![i] = [q EXCEPT ![5] = @ + 1]]
  IN (mut /\ q[1] \in {"l", "F", "c"}) \/ ~St!IterOK(View(0, n), <<>>, bad, mut)
===========================================================================
