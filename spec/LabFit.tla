------------------------------- MODULE LabFit -------------------------------
(***************************************************************************)
(* Meaning of a fit.  c: labels, en, meas, space, n, exps; an experiment is      *)
(*  [load, ts, xs, d, f, area, length, mask]: load path parameters and stretches    *)
(*  of its data points, displacement, force and the mask which selects points.       *)
(*  lower, upper: bounds of the parameters                                              *)
(* For energies which are linear in the parameters the simulated stress is A p.       *)
(***************************************************************************)
EXTENDS LabModel

\* Python slices (positive step) and index lists; 1-based selected positions, in order
Clip(v, N) == IF v < 0 THEN IF v + N < 0 THEN 0 ELSE v + N ELSE IF v > N THEN N ELSE v
RECURSIVE SliceFrom(_, _, _)
SliceFrom(p, b, s) == IF p >= b THEN <<>> ELSE <<p + 1>> \o SliceFrom(p + s, b, s)
RECURSIVE TrueFrom(_, _)
TrueFrom(d, p) == IF p > Len(d) THEN <<>> ELSE (IF d[p] = 1 THEN <<p>> ELSE <<>>) \o TrueFrom(d, p + 1)
Selected(mask, N) ==
  CASE mask.k = "all" -> [q \in 1..N |-> q]
    [] mask.k = "slice" -> SliceFrom(IF Len(mask.a) = 0 THEN 0 ELSE Clip(mask.a[1], N),
                                     IF Len(mask.b) = 0 THEN N ELSE Clip(mask.b[1], N), mask.s)
    [] mask.k = "bool" -> TrueFrom(mask.d, 1)
    [] mask.k = "index" -> [q \in 1..Len(mask.d) |-> IF mask.d[q] < 0 THEN mask.d[q] + N + 1 ELSE mask.d[q] + 1]

\* all selected data points <<experiment, position>>, in the order of the experiments
RECURSIVE PointsFrom(_, _)
PointsFrom(c, e) ==
  IF e > Len(c.exps) THEN <<>>
  ELSE LET s == Selected(c.exps[e].mask, Len(c.exps[e].ts))
       IN [q \in 1..Len(s) |-> <<e, s[q]>>] \o PointsFrom(c, e + 1)
DataPoints(c) == PointsFrom(c, 1)
\* the load path parameter belongs to the stretch one plus displacement over length
StretchOK(c, e) ==
  LET x == c.exps[e]
  IN \A q \in 1..Len(x.ts) : /\ StretchAt(x.load, Param(x.load, Num(x.ts[q])), c.n) = Num(x.xs[q])
                             /\ Num(x.xs[q]) = RAdd(R1, RDiv(Num(x.d[q]), Num(x.length)))
Measured(c, p) == LET x == c.exps[p[1]] IN RDiv(Num(x.f[p[2]]), Num(x.area))
Simulated(c, v, p) == LET x == c.exps[p[1]] IN SimStress(c.space, Energy(c, v), x.load, Param(x.load, Num(x.ts[p[2]])), c.n)
Magnitude(c, v, p) == LET x == c.exps[p[1]]
                      IN RAdd(SimScale(c.space, Energy(c, v), x.load, Param(x.load, Num(x.ts[p[2]])), c.n), RAbs(Measured(c, p)))
\* column of the design matrix
Unit(c, k) == [q \in 1..Len(c.labels) |-> IF q = k THEN c.one ELSE c.zero]
Column(c, k) == LET pts == DataPoints(c)
                    u == Unit(c, k)
                IN SubSeq([q \in 1..Len(pts) |-> Simulated(c, u, pts[q])], 1, Len(pts))
Dot(x, y) == RSumSeq([q \in 1..Len(x) |-> RMul(x[q], y[q])])
\* weight of the point q: reciprocal of its standard deviation
Weight(c, q) == IF Len(c.weights) = 0 THEN R1 ELSE Num(c.weights[q])
Columns(c) == SubSeq([k \in 1..Len(c.labels) |->
                LET a == Column(c, k) IN SubSeq([q \in 1..Len(a) |-> RMul(Weight(c, q), a[q])], 1, Len(a))], 1, Len(c.labels))
\* bounds of the parameters, if there are any
Within(c, p) == \A k \in 1..Len(c.labels) :
                  (Len(c.lower[k]) > 0 => RLeq(Num(c.lower[k][1]), p[k])) /\ (Len(c.upper[k]) > 0 => RLeq(p[k], Num(c.upper[k][1])))
AtBound(x, bound) == Len(bound) > 0 /\ RLeq(RAbs(RSub(x, Num(bound[1]))), RMul(RTen(-5), RAdd(RAbs(Num(bound[1])), RTen(-5))))
\* gradient g of half the weighted sum of squares vanishes: A^T r = 0, relative to the size of the terms; at a bound
\* it points out of the feasible set
Minimal(c, A, r, scale, p, tol) ==
  \A k \in 1..Len(c.labels) :
    LET g == Dot(A[k], r)
        t == RMul(tol, RSumSeq([q \in 1..Len(r) |-> RMul(RAbs(A[k][q]), scale[q])]))
    IN /\ RLeq(g, t) \/ AtBound(p[k], c.lower[k])
       /\ RLeq(RNeg(t), g) \/ AtBound(p[k], c.upper[k])
\* covariance of the parameters: S (A^T A) = v 1, with the variance v = r^T r / (N - np) of the data points, or one
\* if the given standard deviations are absolute; elements relative to the size of the columns
Covariance(c, A, r, S, tol) ==
  LET np == Len(c.labels)
      ix == 1..np
      G == SubSeq([i \in ix |-> SubSeq([j \in ix |-> Dot(A[i], A[j])], 1, np)], 1, np)
      v == IF c.absolute = 1 THEN R1 ELSE RDiv(Dot(r, r), RInt(Len(r) - np))
      s(i, k) == Num(S[(i - 1) * np + k])
  IN \A i, j \in ix :
       LET d == RSub(RSumSeq([k \in ix |-> RMul(s(i, k), G[k][j])]), IF i = j THEN v ELSE R0)
       IN RLeq(RMul(RMul(d, d), G[i][i]), RMul(RMul(RMul(tol, v), RMul(tol, v)), G[j][j]))
=============================================================================
