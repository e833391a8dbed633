------------------------------- MODULE Limbs -------------------------------
(* Natural numbers beyond TLC's 32-bit integers: little-endian sequences   *)
(* of digits in base 2^15, without leading (that is, trailing) zeros.      *)
EXTENDS Integers, Sequences

Base == 32768

RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE OfInt(_)
OfInt(x) == IF x = 0 THEN <<>> ELSE <<x % Base>> \o OfInt(x \div Base)

Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN OfInt(c)
  ELSE LET s == Digit(a, i) + Digit(b, i) + c
       IN <<s % Base>> \o AddFrom(a, b, i + 1, s \div Base)
Add(a, b) == AddFrom(a, b, 1, 0)
AddI(a, x) == Add(a, OfInt(x))

\* a * f for a small factor f <= 2^14
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, f, i, c) ==
  IF i > Len(a) THEN OfInt(c)
  ELSE LET s == a[i] * f + c IN <<s % Base>> \o MulFrom(a, f, i + 1, s \div Base)
MulI(a, f) == Norm(MulFrom(a, f, 1, 0))
RECURSIVE MulAll(_, _)
MulAll(a, fs) == IF fs = <<>> THEN a ELSE MulAll(MulI(a, Head(fs)), Tail(fs))

\* a >= b
RECURSIVE GeqFrom(_, _, _)
GeqFrom(a, b, i) == IF i = 0 THEN TRUE ELSE IF Digit(a, i) # Digit(b, i) THEN Digit(a, i) > Digit(b, i) ELSE GeqFrom(a, b, i - 1)
Geq(a, b) == GeqFrom(a, b, IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b))
Leq(a, b) == Geq(b, a)
Less(a, b) == ~Geq(a, b)

\* a - b for a >= b
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - Digit(b, i) - c
       IN <<IF s < 0 THEN s + Base ELSE s>> \o SubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
Sub(a, b) == Norm(SubFrom(a, b, 1, 0))

\* a / d rounded down, and the remainder, for small d <= 2^14
RECURSIVE DivFrom(_, _, _, _)
DivFrom(a, d, i, r) ==
  IF i = 0 THEN [q |-> <<>>, r |-> r]
  ELSE LET x == r * Base + a[i]
           n == DivFrom(a, d, i - 1, x % d)
       IN [q |-> Append(n.q, x \div d), r |-> n.r]
DivI(a, d) == LET x == DivFrom(a, d, Len(a), 0) IN [q |-> Norm(x.q), r |-> x.r]
RECURSIVE DivAll(_, _)
DivAll(a, fs) == IF fs = <<>> THEN a ELSE DivAll(DivI(a, Head(fs)).q, Tail(fs))

\* a rounded up to a multiple of al, a power of two up to 2^14
Up(a, al) == LET r == Digit(a, 1) % al IN IF r = 0 THEN a ELSE AddI(a, al - r)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN <<1>> ELSE IF n >= 14 THEN MulI(Pow2(n - 14), 16384) ELSE MulI(Pow2(n - 1), 2)

\* What the platform can represent (64-bit).
UsizeMax == Sub(Pow2(64), <<1>>)
IsizeMax == Sub(Pow2(63), <<1>>)
===========================================================================
