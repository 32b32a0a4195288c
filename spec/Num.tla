-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real arithmetic for the specification.                                  *)
(*                                                                         *)
(* TLC's integers are 32 bit and TLC has no reals.  The code specified     *)
(* here is numerical, so the specification needs real numbers: this module *)
(* declares them, and spec/java/Num.java implements each operator for TLC  *)
(* (TLC replaces an operator by the static method of the same name in the  *)
(* class of the module's name) with 40 significant decimal digits -- far   *)
(* beyond the 16 digits of the implementation's doubles, so a difference   *)
(* between an implementation value and a specified value is rounding (and  *)
(* is compared against an explicit tolerance) or a defect.                 *)
(* NumTest.tla checks the overrides against the algebraic laws they must   *)
(* satisfy; the check of property N00 and setup run it.                    *)
(*                                                                         *)
(* A number enters from a trace as a string ("-1.25e-3") through R.        *)
(* Whatever is not a finite number becomes the value NaN: every comparison *)
(* with NaN is FALSE, so that a clause "close to" can never be satisfied   *)
(* by a NaN or an infinity the implementation produced.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* The bodies only document the meaning; TLC never evaluates them.
R(s)        == CHOOSE x : TRUE      \* the number written in the string s (or NaN)
RI(n)       == CHOOSE x : TRUE      \* the integer n as a number
RFrac(n, d) == CHOOSE x : TRUE      \* n / d for integers n, d
RAdd(a, b)  == CHOOSE x : TRUE
RSub(a, b)  == CHOOSE x : TRUE
RMul(a, b)  == CHOOSE x : TRUE
RDiv(a, b)  == CHOOSE x : TRUE      \* NaN for b = 0
RNeg(a)     == CHOOSE x : TRUE
RAbs(a)     == CHOOSE x : TRUE
RMax(a, b)  == CHOOSE x : TRUE
RLt(a, b)   == CHOOSE x : TRUE      \* a < b  (FALSE when NaN is involved)
RLe(a, b)   == CHOOSE x : TRUE      \* a <= b (FALSE when NaN is involved)
REq(a, b)   == CHOOSE x : TRUE      \* a = b  (FALSE when NaN is involved)
RFin(a)     == CHOOSE x : TRUE      \* a is a number, not NaN
RSqrt(a)    == CHOOSE x : TRUE      \* NaN for a < 0
RSin(a)     == CHOOSE x : TRUE
RCos(a)     == CHOOSE x : TRUE
RAtan2(y, x) == CHOOSE v : TRUE     \* in (-pi, pi]
RExp(a)     == CHOOSE x : TRUE
RLog(a)     == CHOOSE x : TRUE      \* NaN for a <= 0
RPi         == CHOOSE x : TRUE
RFloor(a)   == CHOOSE x : TRUE      \* an integer
RStr(a)     == CHOOSE x : TRUE      \* a as a string of 17 digits
RPow(a, n)  == CHOOSE x : TRUE      \* integer n >= 0
RSum(s)     == CHOOSE x : TRUE      \* sum of the sequence s
RDot(s, t)  == CHOOSE x : TRUE      \* sum of s[i]*t[i]
RMaxAbs(s)  == CHOOSE x : TRUE      \* max |s[i]|; 0 for <<>>, NaN if any is NaN
RSeq(s)     == CHOOSE x : TRUE      \* R applied to each element of a sequence of strings

a ++ b == RAdd(a, b)
a -- b == RSub(a, b)
a ** b == RMul(a, b)
a // b == RDiv(a, b)
a \preceq b == RLe(a, b)
a \prec b == RLt(a, b)

RZero == RI(0)
ROne  == RI(1)

\* a and b agree to tolerance tol
RNear(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
\* sequences agree element by element to tolerance tol
RNearSeq(s, t, tol) ==
    /\ Len(s) = Len(t)
    /\ \A i \in 1..Len(s) : RNear(s[i], t[i], tol)
\* relative agreement, with floor: |a-b| <= rel*max(|a|,|b|,floor)
RClose(a, b, rel, floor) ==
    RLe(RAbs(RSub(a, b)), RMul(rel, RMax(floor, RMax(RAbs(a), RAbs(b)))))
=============================================================================
