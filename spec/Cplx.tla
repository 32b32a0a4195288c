-------------------------------- MODULE Cplx --------------------------------
(* Complex numbers as pairs <<re, im>>. *)
EXTENDS Num
CRe(a) == a[1]
CIm(a) == a[2]
C(re, im) == <<re, im>>
CAdd(a, b) == <<a[1] ++ b[1], a[2] ++ b[2]>>
CSub(a, b) == <<a[1] -- b[1], a[2] -- b[2]>>
CMul(a, b) == <<(a[1] ** b[1]) -- (a[2] ** b[2]), (a[1] ** b[2]) ++ (a[2] ** b[1])>>
CConj(a) == <<a[1], RNeg(a[2])>>
CScale(s, a) == <<s ** a[1], s ** a[2]>>
CAbs2(a) == (a[1] ** a[1]) ++ (a[2] ** a[2])
CAbs(a) == RSqrt(CAbs2(a))
CExp(a) == LET e == RExp(a[1]) IN <<e ** RCos(a[2]), e ** RSin(a[2])>>
CZero == <<RZero, RZero>>
COne == <<ROne, RZero>>
RECURSIVE CPow(_, _)
CPow(a, n) == IF n = 0 THEN COne ELSE CMul(a, CPow(a, n - 1))
\* a complex number of a trace: [re |-> string, im |-> string]
CR(v) == <<R(v.re), R(v.im)>>
CSum(s) == <<RSum([i \in 1..Len(s) |-> s[i][1]]), RSum([i \in 1..Len(s) |-> s[i][2]])>>
CNear(a, b, tol) == RNear(a[1], b[1], tol) /\ RNear(a[2], b[2], tol)
=============================================================================
