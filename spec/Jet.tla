-------------------------------- MODULE Jet --------------------------------
(***************************************************************************)
(* Second-order truncated jets a + b e1 + c e2 + d e1 e2 (e1^2 = e2^2 = 0) *)
(* over the rationals, as <<a, b, c, d>>.  For x0 + e1 h1 + e2 h2 the value*)
(* of a function f is <<f(x0), Df[h1], Df[h2], D2f[h1,h2]>>: derivatives    *)
(* are obtained by the definition, not by derivation rules for f.          *)
(* JMul and JAdd are overridden in TLC (same definition, MCBigRat).        *)
(***************************************************************************)
EXTENDS BigRat

JDefMul(x, y) ==
  << RMul(x[1], y[1]),
     RAdd(RMul(x[1], y[2]), RMul(x[2], y[1])),
     RAdd(RMul(x[1], y[3]), RMul(x[3], y[1])),
     RAdd(RAdd(RMul(x[1], y[4]), RMul(x[4], y[1])),
          RAdd(RMul(x[2], y[3]), RMul(x[3], y[2]))) >>
JDefAdd(x, y) == << RAdd(x[1], y[1]), RAdd(x[2], y[2]), RAdd(x[3], y[3]), RAdd(x[4], y[4]) >>

JMul(x, y) == JDefMul(x, y)
JAdd(x, y) == JDefAdd(x, y)

JConst(q) == <<q, R0, R0, R0>>
J0 == <<R0, R0, R0, R0>>
J1 == <<R1, R0, R0, R0>>
JScale(q, x) == << RMul(q, x[1]), RMul(q, x[2]), RMul(q, x[3]), RMul(q, x[4]) >>
JNeg(x) == << RNeg(x[1]), RNeg(x[2]), RNeg(x[3]), RNeg(x[4]) >>
JSub(x, y) == JAdd(x, JNeg(y))
JAddC(x, q) == << RAdd(x[1], q), x[2], x[3], x[4] >>

\* 1/x: with n = (x - x0)/x0 nilpotent (n^3 = 0), 1/x = (1 - n + n^2)/x0
JInv(x) ==
  LET i == RDiv(R1, x[1])
      n == << R0, RMul(i, x[2]), RMul(i, x[3]), RMul(i, x[4]) >>
  IN JScale(i, JAdd(JSub(J1, n), JMul(n, n)))

RECURSIVE JNPow(_, _)
JNPow(x, n) == IF n = 0 THEN J1
               ELSE IF n = 1 THEN x
               ELSE LET h == JNPow(x, n \div 2)
                    IN IF n % 2 = 0 THEN JMul(h, h) ELSE JMul(JMul(h, h), x)
JPow(x, n) == IF n >= 0 THEN JNPow(x, n) ELSE JNPow(JInv(x), -n)

\* The n-th root y of x with constant part r (r^n = x0).
JRoot(x, r, n) ==
  LET i == RDiv(R1, x[1])
      t == << R0, RMul(i, x[2]), RMul(i, x[3]), RMul(i, x[4]) >>
      a == RFrac(1, n)
  IN JScale(r, JAdd(JAddC(JScale(a, t), R1),
                    JScale(RMul(RFrac(1, 2), RMul(a, RSub(a, R1))), JMul(t, t))))
IsRoot(y, x, n) == JNPow(y, n) = x

\* ln x up to its (irrelevant, irrational) constant part, which is set to 0
JLog(x) ==
  LET i == RDiv(R1, x[1])
      t == << R0, RMul(i, x[2]), RMul(i, x[3]), RMul(i, x[4]) >>
  IN JSub(t, JScale(RFrac(1, 2), JMul(t, t)))

RECURSIVE JSumFrom(_, _)
JSumFrom(q, i) == IF i > Len(q) THEN J0
                  ELSE IF i = Len(q) THEN q[i]
                  ELSE JAdd(q[i], JSumFrom(q, i + 1))
JSumSeq(q) == JSumFrom(q, 1)
=============================================================================
