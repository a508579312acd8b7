------------------------------ MODULE MCBigRat ------------------------------
(***************************************************************************)
(* The overridden operators of BigRat and Jet agree with their TLA+        *)
(* definitions (BigRatPure, JDefMul, JDefAdd) on a set of numbers which     *)
(* covers zero, both signs, limb boundaries, carries, common factors and    *)
(* operands of very different length; the field axioms hold on them.        *)
(***************************************************************************)
EXTENDS Jet, TLC
P == INSTANCE BigRatPure

VARIABLES i, j, verdict
Base == 16384

\* (literals: TLC does not cache constants defined by recursive operators)
Nums == << <<<<0>>, <<1, 1>>>>,
           <<<<1, 1>>, <<1, 1>>>>,
           <<<<-1, 1>>, <<1, 1>>>>,
           <<<<1, 16383>>, <<1, 1>>>>,
           <<<<1, 0, 1>>, <<1, 1>>>>,
           <<<<-1, 1, 1>>, <<1, 1>>>>,
           <<<<1, 16383, 16383, 7>>, <<1, 1>>>>,
           <<<<1, 1>>, <<1, 3>>>>,
           <<<<-1, 22>>, <<1, 7>>>>,
           <<<<1, 0, 1>>, <<1, 16383>>>>,
           <<<<-1, 1>>, <<1, 200>>>>,
           <<<<1, 3>>, <<1, 2>>>>,
           <<<<1, 0, 0, 0, 1>>, <<1, 1, 0, 0, 16383>>>>,
           <<<<-1, 16383, 16383, 16383, 16383, 16383, 16383>>, <<1, 1>>>>,
           <<<<1, 12345, 4321, 777, 9, 16000, 3, 5>>, <<1, 0, 0, 0, 0, 0, 0, 1>>>>,
           <<<<-1, 3, 5, 7, 9, 11, 13, 15, 17>>, <<1, 2, 4, 6, 8, 10>>>> >>
N == Len(Nums)
Jets == << <<Nums[1], Nums[2], Nums[9], Nums[4]>>, <<Nums[8], Nums[3], Nums[12], Nums[10]>>,
           <<Nums[15], Nums[9], Nums[1], Nums[13]>>, <<Nums[6], Nums[14], Nums[11], Nums[16]>> >>
a == Nums[i]
b == Nums[j]
Agree ==
  /\ RAdd(a, b) = P!RAdd(a, b)
  /\ RSub(a, b) = P!RSub(a, b)
  /\ RMul(a, b) = P!RMul(a, b)
  /\ (RSgn(b) # 0) => RDiv(a, b) = P!RDiv(a, b)
  /\ RNeg(a) = P!RNeg(a)
  /\ RSgn(a) = P!RSgn(a)
  /\ RLeq(a, b) = P!RLeq(a, b)
AgreeSmall ==
  \A n \in {0, 1, -1, 16383, 16384, -16385, 2147483647} :
    /\ RInt(n) = P!RInt(n)
    /\ \A d \in {1, -1, 7, 16384, 32768, -2147483647} : RFrac(n, d) = P!RFrac(n, d)
AgreeJet == (i <= Len(Jets) /\ j <= Len(Jets)) =>
  /\ JMul(Jets[i], Jets[j]) = JDefMul(Jets[i], Jets[j])
  /\ JAdd(Jets[i], Jets[j]) = JDefAdd(Jets[i], Jets[j])
Field ==
  \A k \in 1..N : LET c == Nums[k] IN
    /\ RMul(a, RAdd(b, c)) = RAdd(RMul(a, b), RMul(a, c))
    /\ RSub(RAdd(a, b), b) = a
    /\ (RSgn(b) # 0) => RMul(RDiv(a, b), b) = a
\* jets: inverse, powers, roots and logarithm against their algebraic characterization
JetLaws == (i <= Len(Jets) /\ RSgn(Jets[i][1]) # 0) =>
  LET x == Jets[i] IN
  /\ JMul(x, JInv(x)) = J1
  /\ JPow(x, -3) = JInv(JPow(x, 3))
  /\ JRoot(JPow(x, 3), x[1], 3) = x
  /\ JRoot(JPow(x, 2), x[1], 2) = x
  /\ JLog(JMul(x, x)) = JAdd(JLog(x), JLog(x))
-----------------------------------------------------------------------------
Init == i \in 1..N /\ j \in 1..N /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ verdict' = IF ~Agree THEN "Agree" ELSE IF ~AgreeSmall THEN "AgreeSmall"
                      ELSE IF ~AgreeJet THEN "AgreeJet" ELSE IF ~Field THEN "Field"
                      ELSE IF ~JetLaws THEN "JetLaws" ELSE "ok"
        /\ UNCHANGED <<i, j>>
Holds == verdict \in {"todo", "ok"}
=============================================================================
