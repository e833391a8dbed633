----------------------------- MODULE Overflow -----------------------------
(* Exact sizes of objects whose arrays have any length a usize can hold,   *)
(* and what each way of constructing such an object must do.               *)
(* Types are described as by `varlen-harness otypes`; n is the sequence of *)
(* array lengths (Limbs), slot by slot.                                    *)
EXTENDS Limbs, FiniteSets, TLC

MaxI(a, b) == IF a >= b THEN a ELSE b

(* Place(d, n, at, s): the object of type d starting at `at`, whose first  *)
(* length is slot s: where it ends, the next free slot, and the lengths of *)
(* its arrays in order of construction.                                    *)
RECURSIVE OAlign(_)
OAlign(d) ==
  CASE d.k = "fix" -> d.al
    [] d.k = "arr" -> MaxI(d.lal, d.al)
    [] OTHER ->
       LET a(i) == IF d.k = "tup" THEN OAlign(d.f[i]) ELSE IF d.f[i].f = "sub" THEN OAlign(d.f[i].d) ELSE d.f[i].d.al
           RECURSIVE M(_)
           M(i) == IF i = 0 THEN (IF d.k = "struct" THEN d.hal ELSE 1) ELSE MaxI(a(i), M(i - 1))
       IN M(Len(d.f))

RECURSIVE Place(_, _, _, _)
RECURSIVE Parts(_, _, _, _, _, _)
Place(d, n, at, s) ==
  CASE d.k = "fix" -> [end |-> AddI(at, d.sz), next |-> s, calls |-> <<>>]
    [] d.k = "arr" ->
         [end |-> Add(Up(AddI(at, d.lsz), d.al), MulAll(n[s], d.szf)), next |-> s + 1, calls |-> <<n[s]>>]
    [] d.k = "tup" -> Parts(d, n, at, s, s, 1)
    [] OTHER -> Parts(d, n, AddI(at, d.hsz), s, s, 1)
Parts(d, n, at, base, s, j) ==
  IF j > Len(d.f) THEN [end |-> at, next |-> s, calls |-> <<>>]
  ELSE
    LET f == d.f[j]
        sub == IF d.k = "tup" THEN f ELSE f.d
        p == IF d.k = "tup" \/ f.f = "sub" THEN Place(sub, n, Up(at, OAlign(sub)), s)
             ELSE LET q == base + f.i - 1
                  IN [end |-> Add(Up(at, sub.al), MulAll(n[q], sub.szf)), next |-> MaxI(s, q + 1), calls |-> <<n[q]>>]
        r == Parts(d, n, p.end, base, p.next, j + 1)
    IN [end |-> r.end, next |-> r.next, calls |-> p.calls \o r.calls]

Exact(d, n) == Place(d, n, <<>>, 1).end
Calls(d, n) == Place(d, n, <<>>, 1).calls

\* Bytes a sequence needs at least to hold `occ` units and this object.
Units(sz, al) == LET q == DivI(sz, al) IN IF sz = <<>> THEN <<1>> ELSE IF q.r = 0 THEN q.q ELSE AddI(q.q, 1)
SeqNeed(d, n, occ, bitmap) ==
  LET al == OAlign(d)
      u == AddI(Units(Exact(d, n), al), occ)
  IN IF bitmap THEN Add(MulI(u, al), Units(u, 8)) ELSE MulI(u, al)

---------------------------------------------------------------------------
(* The elements of each slot, and so the lengths worth trying: those that  *)
(* put the array, alone or with another, on either side of a bound.        *)
RECURSIVE Slots(_, _)
Slots(d, s) ==
  CASE d.k = "fix" -> {}
    [] d.k = "arr" -> {[s |-> s, szf |-> d.szf, lmax |-> d.lmax, lsz |-> d.lsz]}
    [] OTHER ->
       LET RECURSIVE Go(_, _)
           Go(j, t) ==
             IF j > Len(d.f) THEN {}
             ELSE LET f == d.f[j]
                      sub == IF d.k = "tup" THEN f ELSE f.d
                      x == IF d.k = "tup" \/ f.f = "sub" THEN Slots(sub, t)
                           ELSE {[s |-> s + f.i - 1, szf |-> sub.szf, lmax |-> sub.lmax, lsz |-> 0]}
                      nx == LET m == {y.s + 1 : y \in x} \cup {t} IN CHOOSE k \in m : \A i \in m : k >= i
                  IN x \cup Go(j + 1, nx)
       IN Go(1, s)

Near(x, deltas) ==
  {IF d >= 0 THEN AddI(x, d) ELSE Sub(x, OfInt(-d)) : d \in {e \in deltas : e >= 0 \/ Geq(x, OfInt(-e))}}
Usable(vs, sl) == {v \in vs : Leq(v, sl.lmax) /\ Leq(v, UsizeMax)}
\* around b / element size
Around(sl, b, deltas) == IF sl.szf = <<0>> THEN {} ELSE Usable(Near(DivAll(b, sl.szf), deltas), sl)

Wide == -10..3
Narrow == {-2, -1, 0, 1}
Bounds == {Pow2(63), Pow2(64)}
\* multiples of 2^64: lengths whose byte size wraps around to almost nothing
Wraps(sl) == UNION {Around(sl, MulI(Pow2(64), j), {-1, 0, 1, 2}) : j \in {2, 3, 5, 7, 13, 21, 63, 127}}
Halves(sl) == UNION {Around(sl, Pow2(p), {-1, 0, 1}) : p \in {20, 31, 32, 33, 40, 56, 60, 61, 62}}
Ends(sl) == Usable(Near(UsizeMax, -10..0) \cup Near(IsizeMax, Narrow) \cup Near(Pow2(32), Narrow) \cup Near(sl.lmax, {-1, 0}), sl)
Big(sl) == UNION {Around(sl, b, Wide) : b \in Bounds} \cup Wraps(sl) \cup Halves(sl) \cup Ends(sl)
Some(sl) == UNION {Around(sl, b, Narrow) : b \in Bounds \cup {Pow2(62)}} \cup Usable(Near(UsizeMax, {-8, -1, 0}), sl)
Tiny == {<<>>, <<1>>, <<2>>, <<7>>}

(* All length vectors to try for a type with k slots: one boundary length  *)
(* among small ones, every pair of fewer (if deep, of all with fewer)      *)
(* boundary lengths, and small ones.                                       *)
Vectors(d, k, deep) ==
  LET all == Slots(d, 1)
      of(i) == {x \in all : x.s = i}
      big(i) == UNION {Big(x) : x \in of(i)}
      some(i) == UNION {Some(x) : x \in of(i)}
      fits(i, v) == \A x \in of(i) : Leq(v, x.lmax)
      one == UNION {UNION {{[i \in 1..k |-> IF i = p THEN v ELSE t] : v \in big(p)} : t \in Tiny} : p \in 1..k}
      two == UNION {UNION {{[i \in 1..k |-> IF i = p THEN v ELSE IF i = q THEN w ELSE <<1>>] : v \in IF deep THEN big(p) ELSE some(p), w \in some(q)}
                           : q \in (p + 1)..k} : p \in 1..k}
      none == IF k > 2 THEN {} ELSE [1..k -> {<<>>, <<1>>, <<2>>, <<3>>, <<8>>, <<9>>, <<100>>}]
  IN {v \in one \cup two \cup none : \A i \in 1..k : fits(i, v[i])}

---------------------------------------------------------------------------
(* Narrow length fields.                                                   *)
LenMax(l) ==
  CASE l = "u8" -> <<255>>
    [] l = "u16" -> OfInt(65535)
    [] l = "u32" -> Sub(Pow2(32), <<1>>)
    [] OTHER -> UsizeMax
NarrowLens(e) ==
  LET near == UNION {Near(m, {-1, 0, 1, 2, 3}) : m \in {<<255>>, OfInt(511), OfInt(767), OfInt(65535), OfInt(131071), LenMax("u32")}}
              \cup {<<>>, <<1>>, <<2>>, <<3>>, OfInt(100), OfInt(127), OfInt(128), OfInt(32767), OfInt(32768), OfInt(65535 + 255), OfInt(65535 + 256), OfInt(65535 + 257)}
      far == UNION {Near(m, {-1, 0, 1}) : m \in {Pow2(31), Pow2(33), Pow2(40), Pow2(48), Pow2(62), Pow2(63), Add(Pow2(63), Pow2(32))}} \cup Near(UsizeMax, {-2, -1, 0})
      storable == {x \in near : Leq(x, AddI(Pow2(32), 8))}
  IN CASE e = "unit" -> near \cup far
       [] e = "u8" -> storable
       [] e = "str" -> storable
       [] OTHER -> {x \in near : Leq(x, OfInt(300000))}
NarrowCases ==
  UNION {{<<e, l, k, n>> : k \in {"copy", "clone", "sized", "nested", "again"}, n \in NarrowLens(e)} :
         e \in {"unit", "u8", "u32", "str"}, l \in {"u8", "u16", "u32", "u64", "usize", "other"}}

Accepts(l, n) == Leq(n, LenMax(l))
===========================================================================
