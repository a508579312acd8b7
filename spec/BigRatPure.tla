----------------------------- MODULE BigRatPure -----------------------------
(***************************************************************************)
(* Exact rational arithmetic on arbitrarily large numbers, in plain TLA+.  *)
(*                                                                         *)
(* TLC's integers have 32 bits.  A big integer is a sequence <<s,l1,..,ln>>*)
(* of a sign s in {-1,0,1} and limbs in base 2^14, least significant limb  *)
(* first, without leading zero limbs; zero is <<0>>.  A rational is a pair *)
(* <<num, den>> of big integers in lowest terms with den > 0, hence equal  *)
(* rationals are equal TLA+ values.                                        *)
(*                                                                         *)
(* This module is the definition.  Module BigRat re-exports it and is      *)
(* overridden in TLC by java/RatOverrides.java; MCBigRat checks that the   *)
(* override and this definition agree.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 16384

-----------------------------------------------------------------------------
(* Naturals as limb sequences.                                             *)
RECURSIVE Trim(_)
Trim(m) == IF m = <<>> THEN m
           ELSE IF m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE NCmpFrom(_, _, _)
NCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1
                     ELSE NCmpFrom(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE NCmpFrom(a, b, Len(a))

RECURSIVE NAddFrom(_, _, _, _)
NAddFrom(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b)
  THEN IF carry = 0 THEN <<>> ELSE <<carry>>
  ELSE LET s == Limb(a, i) + Limb(b, i) + carry
       IN <<s % Base>> \o NAddFrom(a, b, i + 1, s \div Base)
NAdd(a, b) == NAddFrom(a, b, 1, 0)

RECURSIVE NSubFrom(_, _, _, _)
NSubFrom(a, b, i, borrow) ==            \* requires a >= b
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - Limb(b, i) - borrow
       IN <<s % Base>> \o NSubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
NSub(a, b) == Trim(NSubFrom(a, b, 1, 0))

RECURSIVE NScaleFrom(_, _, _, _)
NScaleFrom(a, k, i, carry) ==           \* 0 <= k < Base
  IF i > Len(a) THEN IF carry = 0 THEN <<>> ELSE <<carry>>
  ELSE LET s == a[i] * k + carry
       IN <<s % Base>> \o NScaleFrom(a, k, i + 1, s \div Base)
NScale(a, k) == Trim(NScaleFrom(a, k, 1, 0))

Shift(a) == IF a = <<>> THEN a ELSE <<0>> \o a

RECURSIVE NMul(_, _)
NMul(a, b) == IF b = <<>> THEN <<>>
              ELSE NAdd(NScale(a, Head(b)), Shift(NMul(a, Tail(b))))

\* Largest q in lo..hi with q*b <= a (schoolbook quotient digit).
RECURSIVE QDigit(_, _, _, _)
QDigit(a, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF NCmp(NScale(b, mid), a) <= 0 THEN QDigit(a, b, mid, hi)
          ELSE QDigit(a, b, lo, mid - 1)

\* <<quotient, remainder>> of a by b # 0
RECURSIVE NDivMod(_, _)
NDivMod(a, b) ==
  IF NCmp(a, b) < 0 THEN <<<<>>, a>>
  ELSE LET hi == NDivMod(Tail(a), b)
           r  == Trim(<<Head(a)>> \o hi[2])
           q  == QDigit(r, b, 0, Base - 1)
       IN <<Trim(<<q>> \o hi[1]), NSub(r, NScale(b, q))>>

RECURSIVE NGcd(_, _)
NGcd(a, b) == IF b = <<>> THEN a ELSE NGcd(b, NDivMod(a, b)[2])

RECURSIVE NFromInt(_)
NFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o NFromInt(n \div Base)

-----------------------------------------------------------------------------
(* Integers.                                                               *)
IMk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m
ISgn(x) == x[1]
IMag(x) == Tail(x)
INeg(x) == IF x[1] = 0 THEN x ELSE <<-x[1]>> \o Tail(x)
IFromInt(n) == IF n < 0 THEN IMk(-1, NFromInt(-n)) ELSE IMk(1, NFromInt(n))
IMul(x, y) == IMk(x[1] * y[1], NMul(IMag(x), IMag(y)))
IAdd(x, y) ==
  IF x[1] = 0 THEN y
  ELSE IF y[1] = 0 THEN x
  ELSE IF x[1] = y[1] THEN IMk(x[1], NAdd(IMag(x), IMag(y)))
  ELSE LET c == NCmp(IMag(x), IMag(y))
       IN IF c = 0 THEN <<0>>
          ELSE IF c > 0 THEN IMk(x[1], NSub(IMag(x), IMag(y)))
          ELSE IMk(y[1], NSub(IMag(y), IMag(x)))

-----------------------------------------------------------------------------
(* Rationals.                                                              *)
RMake(n, d) ==                          \* d # 0
  LET g == NGcd(IMag(n), IMag(d))
      s == n[1] * d[1]
  IN <<IMk(s, NDivMod(IMag(n), g)[1]), IMk(1, NDivMod(IMag(d), g)[1])>>

RInt(n)     == <<IFromInt(n), IFromInt(1)>>
RFrac(n, d) == RMake(IFromInt(n), IFromInt(d))
RAdd(a, b)  == RMake(IAdd(IMul(a[1], b[2]), IMul(b[1], a[2])), IMul(a[2], b[2]))
RNeg(a)     == <<INeg(a[1]), a[2]>>
RSub(a, b)  == RAdd(a, RNeg(b))
RMul(a, b)  == RMake(IMul(a[1], b[1]), IMul(a[2], b[2]))
RDiv(a, b)  == RMake(IMul(a[1], b[2]), IMul(a[2], b[1]))      \* b # 0
RSgn(a)     == a[1][1]
RLeq(a, b)  == RSgn(RSub(a, b)) <= 0
=============================================================================
