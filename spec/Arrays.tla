------------------------------- MODULE Arrays -------------------------------
(***************************************************************************)
(* Recorded arrays.  A trace file holds a table of the distinct numbers     *)
(* (exact rationals) and arrays [s |-> shape, d |-> row-major list of        *)
(* indices into that table].  The leading axes of an array are tensor axes,  *)
(* the remaining (trailing) axes are points; trailing axes broadcast by the   *)
(* usual rule.                                                               *)
(***************************************************************************)
EXTENDS BigRat, TLC, Json, IOUtils

File == IOEnv.TRACE
Doc  == JsonDeserialize(File)
Num(n) == Doc.tab[n]
Cases == Doc.cases

RECURSIVE ProdFrom(_, _)
ProdFrom(q, i) == IF i > Len(q) THEN 1 ELSE q[i] * ProdFrom(q, i + 1)
Prod(q) == ProdFrom(q, 1)

\* trailing shape of an array with r tensor axes
Trail(a, r) == SubSeq(a.s, r + 1, Len(a.s))
Head_(a, r) == SubSeq(a.s, 1, r)
\* row-major values of the whole array
Eager(f) == SubSeq(f, 1, Len(f))   \* an evaluated tuple instead of a lazy function
Vals(a) == Eager([k \in 1..Len(a.d) |-> Num(a.d[k])])
Finite(a) == \A k \in 1..Len(a.d) : RFinite(Num(a.d[k]))

Pad(s, n) == [k \in 1..n |-> IF k <= n - Len(s) THEN 1 ELSE s[k - (n - Len(s))]]
MaxI(a, b) == IF a > b THEN a ELSE b
Compatible(s, t) == LET n == MaxI(Len(s), Len(t)) IN
  \A k \in 1..n : Pad(s, n)[k] = Pad(t, n)[k] \/ Pad(s, n)[k] = 1 \/ Pad(t, n)[k] = 1
Bcast(s, t) == LET n == MaxI(Len(s), Len(t)) IN
  [k \in 1..n |-> IF Pad(s, n)[k] = 1 THEN Pad(t, n)[k] ELSE Pad(s, n)[k]]

\* The p-th point (0-based, row-major) of shape t, as flat point of the
\* trailing shape s which broadcasts to t.
RECURSIVE PointFrom(_, _, _, _, _)
PointFrom(s, t, p, k, stride) ==        \* from the last axis k backwards
  IF k = 0 THEN 0
  ELSE LET i == p % t[k]
       IN (IF s[k] = 1 THEN 0 ELSE i * stride)
          + PointFrom(s, t, p \div t[k], k - 1, stride * s[k])
Point(s, t, p) == PointFrom(Pad(s, Len(t)), t, p, Len(t), 1)

\* Row-major values of the tensor (r axes) at point p of the shape t
AtPoint(a, r, t, p) ==
  LET s == Trail(a, r)
      n == Prod(s)
      q == Point(s, t, p)
      m == Prod(Head_(a, r))
  IN Eager([k \in 1..m |-> Num(a.d[(k - 1) * n + q + 1])])

\* nested tuples from row-major values
M33(v) == << <<v[1], v[2], v[3]>>, <<v[4], v[5], v[6]>>, <<v[7], v[8], v[9]>> >>
V66(v, i, j) == v[6 * (i - 1) + j]
T4(v, i, j, k, l) == v[27 * (i - 1) + 9 * (j - 1) + 3 * (k - 1) + l]

\* |a - b| <= tol * scale
Near(a, b, tol, scale) == RLeq(RAbs(RSub(a, b)), RMul(tol, scale))
=============================================================================
