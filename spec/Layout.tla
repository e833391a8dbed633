------------------------------ MODULE Layout ------------------------------
(* The byte layout of variable-length objects.                             *)
(*                                                                         *)
(* A type is described structurally:                                       *)
(*   [k |-> "fix", sz, al]                 one value                       *)
(*   [k |-> "arr", lsz, lal, sz, al]       length field, then n values     *)
(*   [k |-> "tup", f |-> <<types>>]        the parts, in order             *)
(*   [k |-> "struct", hsz, hal, f |-> ..]  fixed fields in a frame of hsz  *)
(*        bytes, then arrays and variable-length fields in order; f[i].f   *)
(*        is "fix" or "ctl" (in the frame), "arr" (with a length           *)
(*        expression over the ctl fields) or "sub" (with its type d)       *)
(* Every scalar field, array and string of a type is one LEAF; leaves are  *)
(* numbered in declaration order through all nesting.                      *)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a >= b THEN a ELSE b
RoundUp(x, a) == ((x + a - 1) \div a) * a
PowersOfTwo == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}

RECURSIVE MaxOf(_)
MaxOf(s) == IF s = <<>> THEN 1 ELSE Max2(Head(s), MaxOf(Tail(s)))

RECURSIVE AlignOf(_)
AlignOf(d) ==
  CASE d.k = "fix" -> d.al
    [] d.k = "arr" -> Max2(d.lal, d.al)
    [] d.k = "tup" -> MaxOf([i \in 1..Len(d.f) |-> AlignOf(d.f[i])])
    [] OTHER -> Max2(d.hal, MaxOf([i \in 1..Len(d.f) |->
                  CASE d.f[i].f = "sub" -> AlignOf(d.f[i].d)
                    [] OTHER -> d.f[i].al]))

RECURSIVE LeavesIn(_)
LeavesIn(d) ==
  CASE d.k \in {"fix", "arr"} -> 1
    [] OTHER ->
       LET n(i) == CASE d.k = "tup" -> LeavesIn(d.f[i])
                     [] d.f[i].f = "sub" -> LeavesIn(d.f[i].d)
                     [] OTHER -> 1
           RECURSIVE Sum(_)
           Sum(i) == IF i = 0 THEN 0 ELSE n(i) + Sum(i - 1)
       IN Sum(Len(d.f))

\* Length expressions over the values c of the controlling fields.
RECURSIVE Eval(_, _)
Eval(x, c) ==
  CASE x[1] = "k" -> x[2]
    [] x[1] = "c" -> c[x[2]]
    [] x[1] = "+" -> Eval(x[2], c) + Eval(x[3], c)
    [] x[1] = "*" -> Eval(x[2], c) * Eval(x[3], c)
    [] x[1] = "/" -> Eval(x[2], c) \div Eval(x[3], c)
    [] x[1] = "if" -> IF Eval(x[2], c) # 0 THEN Eval(x[3], c) ELSE Eval(x[4], c)

\* A leaf that must lie at an exact offset, or anywhere in a frame.
Exact(o, n, sz, al) == [lo |-> o, hi |-> o, len |-> n * sz, al |-> al, sz |-> sz]
InFrame(o, h, sz, al) == [lo |-> o, hi |-> o + h - sz, len |-> sz, al |-> al, sz |-> sz]

(* Plan(d, n, at, i): lay out type d at offset `at`, taking the number of  *)
(* elements of its leaves from n (a sequence indexed by leaf), its first   *)
(* leaf being number i. Result: end offset and the constraint per leaf.    *)
RECURSIVE Plan(_, _, _, _)
RECURSIVE PlanParts(_, _, _, _, _, _)
Plan(d, n, at, i) ==
  CASE d.k = "fix" -> [end |-> at + d.sz, lf |-> <<Exact(at, 1, d.sz, d.al)>>]
    [] d.k = "arr" ->
         LET p == RoundUp(at + d.lsz, d.al)
         IN [end |-> p + n[i] * d.sz, lf |-> <<Exact(p, n[i], d.sz, d.al)>>]
    [] d.k = "tup" -> PlanParts(d, n, at, at, i, 1)
    [] OTHER -> PlanParts(d, n, at, at + d.hsz, i, 1)

PlanParts(d, n, start, at, i, j) ==
  IF j > Len(d.f) THEN [end |-> at, lf |-> <<>>]
  ELSE LET f == d.f[j] IN
    IF d.k = "tup" THEN
      LET p == Plan(f, n, RoundUp(at, AlignOf(f)), i)
          r == PlanParts(d, n, start, p.end, i + Len(p.lf), j + 1)
      IN [end |-> r.end, lf |-> p.lf \o r.lf]
    ELSE IF f.f = "sub" THEN
      LET p == Plan(f.d, n, RoundUp(at, AlignOf(f.d)), i)
          r == PlanParts(d, n, start, p.end, i + Len(p.lf), j + 1)
      IN [end |-> r.end, lf |-> p.lf \o r.lf]
    ELSE IF f.f = "arr" THEN
      LET o == RoundUp(at, f.al)
          r == PlanParts(d, n, start, o + n[i] * f.sz, i + 1, j + 1)
      IN [end |-> r.end, lf |-> <<Exact(o, n[i], f.sz, f.al)>> \o r.lf]
    ELSE
      LET r == PlanParts(d, n, start, at, i + 1, j + 1)
      IN [end |-> r.end, lf |-> <<InFrame(start, d.hsz, f.sz, f.al)>> \o r.lf]

SizeOf(d, n) == Plan(d, n, 0, 1).end

(* Numbers of elements demanded by the length expressions of the structs   *)
(* in d, given the numeric values x of the leaves; -1 where free.          *)
RECURSIVE Demand(_, _, _)
Demand(d, x, i) ==
  CASE d.k = "fix" -> <<1>>
    [] d.k = "arr" -> <<-1>>
    [] OTHER ->
      LET RECURSIVE First(_)   \* first leaf of part j
          First(j) == IF j = 1 THEN i ELSE First(j - 1) +
            (CASE d.k = "tup" -> LeavesIn(d.f[j - 1])
               [] d.f[j - 1].f = "sub" -> LeavesIn(d.f[j - 1].d)
               [] OTHER -> 1)
          ctlparts == IF d.k = "tup" THEN {} ELSE {j \in 1..Len(d.f) : d.f[j].f = "ctl"}
          RECURSIVE Ctl(_)     \* values of the controlling fields, in order
          Ctl(j) == IF j > Len(d.f) THEN <<>>
                    ELSE (IF j \in ctlparts THEN <<x[First(j)]>> ELSE <<>>) \o Ctl(j + 1)
          RECURSIVE Parts(_)
          Parts(j) == IF j > Len(d.f) THEN <<>> ELSE
            (CASE d.k = "tup" -> Demand(d.f[j], x, First(j))
               [] d.f[j].f = "sub" -> Demand(d.f[j].d, x, First(j))
               [] d.f[j].f = "arr" -> <<Eval(d.f[j].len, Ctl(1))>>
               [] OTHER -> <<1>>) \o Parts(j + 1)
      IN Parts(1)

---------------------------------------------------------------------------
(* What every observed object must satisfy. ob: [sz, lf], lf[i] with       *)
(* o: offset seen through shared access, m/mn: offset and count seen       *)
(* through mutable access, n: count, l: count reported in the short        *)
(* length type (-1 none), x: numeric value (-1 none).                      *)
Counts(ob) == [i \in 1..Len(ob.lf) |-> ob.lf[i].n]
Nums(ob) == [i \in 1..Len(ob.lf) |-> ob.lf[i].x]

GoodShape(d, ob) == Len(ob.lf) = LeavesIn(d)
GoodSize(d, ob) == ob.sz = SizeOf(d, Counts(ob))
GoodOffsets(d, ob) ==
  LET p == Plan(d, Counts(ob), 0, 1).lf IN
  /\ \A i \in 1..Len(p) :
       LET o == ob.lf[i].o IN
       /\ p[i].lo <= o /\ o <= p[i].hi
       /\ o % p[i].al = 0
       /\ o >= 0 /\ o + p[i].len <= ob.sz
  /\ \A i, j \in 1..Len(p) :
       (i < j /\ p[i].len > 0 /\ p[j].len > 0) =>
         \/ ob.lf[i].o + p[i].len <= ob.lf[j].o
         \/ ob.lf[j].o + p[j].len <= ob.lf[i].o
GoodMutable(ob) == \A i \in 1..Len(ob.lf) : ob.lf[i].m = ob.lf[i].o /\ ob.lf[i].mn = ob.lf[i].n
GoodLengths(d, ob) ==
  LET q == Demand(d, Nums(ob), 1) IN
  \A i \in 1..Len(q) : /\ q[i] # -1 => ob.lf[i].n = q[i]
                       /\ ob.lf[i].l # -1 => ob.lf[i].l = ob.lf[i].n
===========================================================================
