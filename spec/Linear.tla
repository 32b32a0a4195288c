------------------------------- MODULE Linear -------------------------------
(***************************************************************************)
(* Linear programs as the constraints of the optimisation state them, and  *)
(* what proves a claim about them.                                         *)
(*                                                                         *)
(* A constraint of a voltage vector is                                     *)
(*   [t: "range", min, max, index]      (index -1: all electrodes), or     *)
(*   [t: "value", obj, min, max, offset]                                   *)
(* with "None" for what is absent.  Ineqs and Eqs list them as rows: a     *)
(* record [a, b] stands for a.u <= b (a.u = b).                            *)
(*                                                                         *)
(* Optimality is decided by weak duality: multipliers found by any means   *)
(* prove a bound on the objective for all admissible voltages once they    *)
(* satisfy the sign and stationarity conditions, and these are checked     *)
(* here.  Likewise infeasibility by Farkas multipliers and unboundedness   *)
(* by a ray.                                                               *)
(***************************************************************************)
EXTENDS Rows

UnitRow(m, j, s) == [q \in 1..m |-> IF q = j THEN RI(s) ELSE RZero]
Neg(a) == [q \in 1..Len(a) |-> RNeg(a[q])]
RECURSIVE CatAll(_)
CatAll(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o CatAll(Tail(s))
Idx(m, c) == IF c.index = -1 THEN [q \in 1..m |-> q] ELSE <<c.index + 1>>
IsEq(c) == c.min # "None" /\ c.max # "None" /\ REq(R(c.min), R(c.max))
Ineqs(els, c) ==
  LET m == Len(els) IN
  IF c.t = "range" THEN
    IF IsEq(c) THEN <<>>
    ELSE LET ix == Idx(m, c) IN
       (IF c.min = "None" THEN <<>> ELSE [q \in 1..Len(ix) |-> [a |-> UnitRow(m, ix[q], -1), b |-> RNeg(R(c.min))]])
    \o (IF c.max = "None" THEN <<>> ELSE [q \in 1..Len(ix) |-> [a |-> UnitRow(m, ix[q], 1), b |-> R(c.max)]])
  ELSE IF c.min = "None" /\ c.max = "None" THEN <<>>
  ELSE LET r == Row(els, c.obj) IN
       (IF c.min = "None" THEN <<>> ELSE <<[a |-> Neg(r), b |-> RNeg(R(c.min))]>>)
    \o (IF c.max = "None" THEN <<>> ELSE <<[a |-> r, b |-> R(c.max)]>>)
Eqs(els, c) ==
  LET m == Len(els) IN
  IF c.t = "range" THEN
    IF ~IsEq(c) THEN <<>> ELSE LET ix == Idx(m, c) IN [q \in 1..Len(ix) |-> [a |-> UnitRow(m, ix[q], 1), b |-> R(c.min)]]
  ELSE IF c.offset = "None" THEN <<>> ELSE <<[a |-> Row(els, c.obj), b |-> R(c.offset)]>>
AllIneqs(els, cs) == TLCEval(CatAll([i \in 1..Len(cs) |-> Ineqs(els, cs[i])]))
AllEqs(els, cs) == TLCEval(CatAll([i \in 1..Len(cs) |-> Eqs(els, cs[i])]))

Holds(els, c, u, tol) ==
  /\ \A i \in 1..Len(Ineqs(els, c)) : LET r == Ineqs(els, c)[i] IN RLe(RDot(r.a, u), r.b ++ tol)
  /\ \A i \in 1..Len(Eqs(els, c)) : LET r == Eqs(els, c)[i] IN RNear(RDot(r.a, u), r.b, tol)
=============================================================================
