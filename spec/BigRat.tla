------------------------------- MODULE BigRat -------------------------------
(***************************************************************************)
(* Exact rationals (see BigRatPure for the definition).  The operators of  *)
(* the first group are overridden in TLC by java/RatOverrides.java.        *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL P == INSTANCE BigRatPure

RInt(n)     == P!RInt(n)
RFrac(n, d) == P!RFrac(n, d)
RAdd(a, b)  == P!RAdd(a, b)
RSub(a, b)  == P!RSub(a, b)
RMul(a, b)  == P!RMul(a, b)
RDiv(a, b)  == P!RDiv(a, b)
RNeg(a)     == P!RNeg(a)
RSgn(a)     == P!RSgn(a)
RLeq(a, b)  == P!RLeq(a, b)

R0 == <<<<0>>, <<1, 1>>>>
R1 == <<<<1, 1>>, <<1, 1>>>>

RLt(a, b)  == ~RLeq(b, a)
RAbs(a)    == IF RSgn(a) < 0 THEN RNeg(a) ELSE a
RMax(a, b) == IF RLeq(a, b) THEN b ELSE a
RSum3(a, b, c) == RAdd(RAdd(a, b), c)

\* a^n for any integer n (a # 0 if n < 0)
RECURSIVE RNPow(_, _)
RNPow(a, n) == IF n = 0 THEN R1
               ELSE IF n = 1 THEN a
               ELSE LET h == RNPow(a, n \div 2)
                    IN IF n % 2 = 0 THEN RMul(h, h) ELSE RMul(RMul(h, h), a)
RPow(a, n) == IF n >= 0 THEN RNPow(a, n) ELSE RNPow(RDiv(R1, a), -n)

\* sums over sequences of rationals
RECURSIVE RSumFrom(_, _)
RSumFrom(q, i) == IF i > Len(q) THEN R0
                  ELSE IF i = Len(q) THEN q[i]
                  ELSE RAdd(q[i], RSumFrom(q, i + 1))
RSumSeq(q) == RSumFrom(q, 1)
RECURSIVE RMaxAbsFrom(_, _, _)
RMaxAbsFrom(q, i, m) == IF i > Len(q) THEN m
                        ELSE RMaxAbsFrom(q, i + 1, RMax(m, RAbs(q[i])))
RMaxAbs(q) == RMaxAbsFrom(q, 1, R0)

\* A recorded floating-point number is finite iff its sign limb is a sign
\* (the recorder writes <<<<2>>, ..>> for nan and infinities).
RFinite(a) == a[1][1] \in {-1, 0, 1}
RECURSIVE RAllFiniteFrom(_, _)
RAllFiniteFrom(q, i) == IF i > Len(q) THEN TRUE
                        ELSE IF ~RFinite(q[i]) THEN FALSE
                        ELSE RAllFiniteFrom(q, i + 1)
RAllFinite(q) == RAllFiniteFrom(q, 1)

\* 10^-n
RTen(n) == RPow(RInt(10), n)
=============================================================================
