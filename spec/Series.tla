------------------------------- MODULE Series -------------------------------
(***************************************************************************)
(* Truncated Taylor series in one variable: a sequence of coefficients     *)
(* <<c0, c1, ..., cN>>, all of one length.  A function along the line      *)
(* p + t n is such a series in t; k! times its k-th coefficient is the     *)
(* k-th derivative along n.                                                *)
(***************************************************************************)
EXTENDS Num, TLC

SConst(c, N) == [i \in 1..(N + 1) |-> IF i = 1 THEN c ELSE RZero]
SLin(c, d, N) == [i \in 1..(N + 1) |-> IF i = 1 THEN c ELSE IF i = 2 THEN d ELSE RZero]
SAdd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ++ b[i]])
SSub(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] -- b[i]])
SScale(s, a) == TLCEval([i \in 1..Len(a) |-> s ** a[i]])
SMul(a, b) == TLCEval([i \in 1..Len(a) |-> RSum([j \in 1..i |-> a[j] ** b[i + 1 - j]])])
RECURSIVE SDivR(_, _, _)
SDivR(a, b, q) ==
  IF Len(q) = Len(a) THEN q
  ELSE LET i == Len(q) + 1
           s == RSum([j \in 1..Len(q) |-> q[j] ** b[i + 1 - j]])
       IN  SDivR(a, b, Append(q, (a[i] -- s) // b[1]))
SDiv(a, b) == SDivR(a, b, <<>>)
RECURSIVE SSqrtR(_, _)
SSqrtR(a, q) ==
  IF Len(q) = Len(a) THEN q
  ELSE LET i == Len(q) + 1
           s == RSum([j \in 1..(Len(q) - 1) |-> q[j + 1] ** q[i - j]])
       IN  SSqrtR(a, Append(q, (a[i] -- s) // (RI(2) ** q[1])))
SSqrt(a) == SSqrtR(a, <<RSqrt(a[1])>>)
SSumSeq(s, N) == [i \in 1..(N + 1) |-> RSum([j \in 1..Len(s) |-> s[j][i]])]
=============================================================================
