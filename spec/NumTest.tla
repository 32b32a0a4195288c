------------------------------ MODULE NumTest ------------------------------
(* Laws the overrides of Num must satisfy, evaluated by TLC.               *)
EXTENDS Num, TLC
T == R("1e-36")
Samples == {R("0.1"), R("-2.75"), R("3.5e3"), R("-1e-7"), RFrac(1, 3), RFrac(22, 7), R("12.566370614359172")}
Laws ==
  /\ \A a, b \in Samples : RNear(a ++ b, b ++ a, RZero) /\ REq(a ** b, b ** a) /\ RNear((a -- b) ++ b, a, T ** RI(10000))
  /\ \A a, b \in Samples : RNear((a // b) ** b, a, T ** RI(10000))
  /\ \A a \in Samples : RNear(RSqrt(RAbs(a)) ** RSqrt(RAbs(a)), RAbs(a), T ** RI(10000))
  /\ \A a \in Samples : RNear(RSin(a)**RSin(a) ++ RCos(a)**RCos(a), ROne, T)
  /\ \A a, b \in Samples : RNear(RSin(a ++ b), RSin(a)**RCos(b) ++ RCos(a)**RSin(b), R("1e-34"))
  /\ \A a, b \in Samples : LET h == RSqrt(a**a ++ b**b) t == RAtan2(a, b)
                           IN RNear(RSin(t)**h, a, R("1e-33")) /\ RNear(RCos(t)**h, b, R("1e-33"))
  /\ \A a \in {R("0.1"), R("-2.75"), RFrac(1,3)} : RNear(RLog(RExp(a)), a, T)
  /\ RNear(RExp(R("0.5")) ** RExp(R("0.5")), RExp(ROne), T)
  /\ RNear(RSin(RPi), RZero, T) /\ RNear(RAtan2(ROne, ROne) ** RI(4), RPi, T)
  /\ RNear(RExp(ROne), R("2.71828182845904523536028747135266249775724709"), T)
  /\ RNear(RPi, R("3.14159265358979323846264338327950288419716939937510"), T)
  /\ ~RLe(R("nan"), ROne) /\ ~RLe(ROne, R("inf")) /\ ~REq(R("nan"), R("nan")) /\ ~RFin(R("x"))
  /\ ~RFin(RDiv(ROne, RZero)) /\ ~RFin(RSqrt(RI(-1)))
  /\ RFloor(R("-0.5")) = -1 /\ RFloor(R("2.9999")) = 2
  /\ REq(RSum(<<ROne, RI(2), RI(3)>>), RI(6)) /\ REq(RDot(<<ROne, RI(2)>>, <<RI(3), RI(4)>>), RI(11))
  /\ REq(RPow(RI(3), 4), RI(81)) /\ REq(RMaxAbs(<<RI(-3), RI(2)>>), RI(3))
  /\ RLt(RI(1), RI(2)) /\ ~RLt(RI(2), RI(2)) /\ RLe(RI(2), RI(2))
VARIABLE x
Init == x = 0
Next == x < 0 /\ x' = 0
ASSUME PrintT(<<"NUMTEST", Laws>>)
Good == Laws
=============================================================================
