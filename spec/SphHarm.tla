------------------------------ MODULE SphHarm ------------------------------
(***************************************************************************)
(* Real spherical harmonics with the Condon-Shortley phase:                *)
(* m > 0: sqrt(2) K P_l^m(cos th) cos(m ph),  m < 0: ... P_l^|m| sin(|m| ph)*)
(* written in Cartesian components of a unit vector, and the complex ones. *)
(***************************************************************************)
EXTENDS Cplx, TLC

RECURSIVE DFact(_)
DFact(n) == IF n <= 1 THEN ROne ELSE RI(n) ** DFact(n - 2)     \* n!!
RECURSIVE RFact(_)
RFact(n) == IF n <= 1 THEN ROne ELSE RI(n) ** RFact(n - 1)

\* P_l^m(z) / (1 - z^2)^(m/2), with the phase (-1)^m
RECURSIVE Leg(_, _, _)
Leg(l, m, z) ==
  IF l < m THEN RZero
  ELSE IF l = m THEN (IF m % 2 = 1 THEN RNeg(DFact(2 * m - 1)) ELSE DFact(2 * m - 1))
  ELSE ((RI(2 * l - 1) ** (z ** Leg(l - 1, m, z))) -- (RI(l + m - 1) ** Leg(l - 2, m, z))) // RI(l - m)

IAbs(m) == IF m < 0 THEN -m ELSE m
Norm(l, m) == RSqrt((RI(2 * l + 1) // (RI(4) ** RPi)) ** (RFact(l - m) // RFact(l + m)))

\* at the unit vector n
YReal(l, m, n) ==
  LET k == IAbs(m)
      p == CPow(<<n[1], n[2]>>, k)
      b == Norm(l, k) ** Leg(l, k, n[3])
  IN  IF m = 0 THEN b ELSE RSqrt(RI(2)) ** (b ** (IF m > 0 THEN p[1] ELSE p[2]))

\* complex harmonic
YCplx(l, m, n) ==
  LET k == IAbs(m)
      p == CPow(<<n[1], n[2]>>, k)
      b == Norm(l, k) ** Leg(l, k, n[3])
      y == CScale(b, p)
  IN  IF m >= 0 THEN y ELSE (IF k % 2 = 1 THEN CScale(RI(-1), CConj(y)) ELSE CConj(y))

Unit(v) == LET r == RSqrt(RDot(v, v)) IN [i \in 1..3 |-> v[i] // r]
\* generic directions, no two related by a symmetry of the axes
Raw == << <<3, 1, 2>>, <<-1, 4, 1>>, <<2, -3, 5>>, <<1, 1, -4>>, <<-5, 2, 2>>, <<4, 3, -1>>,
          <<-2, -1, 3>>, <<1, -5, -2>>, <<7, 2, -3>>, <<-3, 6, -4>>, <<1, 2, 9>>, <<5, -4, 3>> >>
Dirs == TLCEval([i \in 1..Len(Raw) |-> Unit([j \in 1..3 |-> RI(Raw[i][j])])])
=============================================================================
