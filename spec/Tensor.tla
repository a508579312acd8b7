------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Three-dimensional tensor algebra in index notation over a commutative    *)
(* ring given by the constant operators (instantiated with rationals and    *)
(* with jets).  A second-order tensor is a 3x3 matrix <<row,row,row>>.       *)
(* Tensors are built as explicit tuples (TLC evaluates them eagerly).        *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _), Zero, One

Dim == 1..3
Tab(F(_, _)) == << <<F(1, 1), F(1, 2), F(1, 3)>>,
                   <<F(2, 1), F(2, 2), F(2, 3)>>,
                   <<F(3, 1), F(3, 2), F(3, 3)>> >>
Delta(i, j) == IF i = j THEN One ELSE Zero
Id == << <<One, Zero, Zero>>, <<Zero, One, Zero>>, <<Zero, Zero, One>> >>
Add3(a, b, c) == Add(Add(a, b), c)

Transpose(A) == LET E(i, j) == A[j][i] IN Tab(E)
MAdd(A, B)   == LET E(i, j) == Add(A[i][j], B[i][j]) IN Tab(E)
MSub(A, B)   == LET E(i, j) == Sub(A[i][j], B[i][j]) IN Tab(E)
MScale(a, A) == LET E(i, j) == Mul(a, A[i][j]) IN Tab(E)
\* (A B)_ij = A_ik B_kj
MMul(A, B)   == LET E(i, j) == Add3(Mul(A[i][1], B[1][j]), Mul(A[i][2], B[2][j]), Mul(A[i][3], B[3][j]))
                IN Tab(E)
\* A^T B and A B^T
MTMul(A, B)  == LET E(i, j) == Add3(Mul(A[1][i], B[1][j]), Mul(A[2][i], B[2][j]), Mul(A[3][i], B[3][j]))
                IN Tab(E)
MMulT(A, B)  == LET E(i, j) == Add3(Mul(A[i][1], B[j][1]), Mul(A[i][2], B[j][2]), Mul(A[i][3], B[j][3]))
                IN Tab(E)
Trace(A)     == Add3(A[1][1], A[2][2], A[3][3])
\* A : B = A_ij B_ij
DDot(A, B)   == LET R(i) == Add3(Mul(A[i][1], B[i][1]), Mul(A[i][2], B[i][2]), Mul(A[i][3], B[i][3]))
                IN Add3(R(1), R(2), R(3))
Nxt(i) == IF i = 3 THEN 1 ELSE i + 1
\* cofactor (cyclic), Cof_ij = dDet/dA_ij
Cof(A) == LET E(i, j) == Sub(Mul(A[Nxt(i)][Nxt(j)], A[Nxt(Nxt(i))][Nxt(Nxt(j))]),
                             Mul(A[Nxt(i)][Nxt(Nxt(j))], A[Nxt(Nxt(i))][Nxt(j)]))
          IN Tab(E)
Det(A) == LET C(j) == Sub(Mul(A[2][Nxt(j)], A[3][Nxt(Nxt(j))]), Mul(A[2][Nxt(Nxt(j))], A[3][Nxt(j)]))
          IN Add3(Mul(A[1][1], C(1)), Mul(A[1][2], C(2)), Mul(A[1][3], C(3)))
\* tr(A^2)
Trace2(A) == DDot(A, Transpose(A))
RECURSIVE MPow(_, _)
MPow(A, n) == IF n = 0 THEN Id
              ELSE IF n = 1 THEN A
              ELSE LET h == MPow(A, n \div 2)
                       q == MMul(h, h)
                   IN IF n % 2 = 0 THEN q ELSE MMul(q, A)
Diag(a, b, c) == << <<a, Zero, Zero>>, <<Zero, b, Zero>>, <<Zero, Zero, c>> >>
Sym(A) == A[1][2] = A[2][1] /\ A[1][3] = A[3][1] /\ A[2][3] = A[3][2]

-----------------------------------------------------------------------------
(* Reduced storage of symmetric tensors: 11, 22, 33, 12, 23, 13.           *)
VI == <<1, 2, 3, 1, 2, 1>>
VJ == <<1, 2, 3, 2, 3, 3>>
VIdx == << <<1, 4, 6>>, <<4, 2, 5>>, <<6, 5, 3>> >>
Full(v) == LET E(i, j) == v[VIdx[i][j]] IN Tab(E)
Red(A) == << A[1][1], A[2][2], A[3][3], A[1][2], A[2][3], A[1][3] >>
=============================================================================
