------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* The potential of patches at unit voltage in an otherwise grounded plane *)
(* z = 0, and its derivatives along a line.                                *)
(*                                                                         *)
(* A loop is a sequence of points <<x, y>>.  Its potential at p is the     *)
(* solid angle of the enclosed surface seen from p over 2 pi, positive for *)
(* a counter clockwise loop seen from z > 0 -- the solution of Laplace's   *)
(* equation with value 1 on the patch and 0 elsewhere.  The solid angle is *)
(* the sum over a fan of signed triangles (Van Oosterom and Strackee);     *)
(* its gradient is the line integral of Biot and Savart along the boundary.*)
(* FieldsModel checks that these two agree.                                *)
(***************************************************************************)
EXTENDS Series, Tensor

Vec(a, b) == [i \in 1..3 |-> a[i] -- b[i]]
Cross(a, b) == << (a[2] ** b[3]) -- (a[3] ** b[2]), (a[3] ** b[1]) -- (a[1] ** b[3]), (a[1] ** b[2]) -- (a[2] ** b[1]) >>
NormV(a) == RSqrt(RDot(a, a))
P3(q) == <<q[1], q[2], RZero>>

\* signed solid angle of a triangle of points of the plane seen from p
TriAngle(a, b, c, p) ==
  LET A == Vec(P3(a), p) B == Vec(P3(b), p) D == Vec(P3(c), p)
      la == NormV(A) lb == NormV(B) ld == NormV(D)
      det == RDot(A, Cross(B, D))
      den == (la ** lb ** ld) ++ ((RDot(A, B) ** ld) ++ ((RDot(A, D) ** lb) ++ (RDot(B, D) ** la)))
  IN  RI(-2) ** RAtan2(det, den)       \* the normal of a ccw triangle points to +z
LoopPot(lp, p) ==
  RSum([i \in 1..(Len(lp) - 2) |-> TriAngle(lp[1], lp[i + 1], lp[i + 2], p)]) // (RI(2) ** RPi)

\* R_i = p + t n - v as three series
Rel(v, p, n, N) == LET q == P3(v) IN [i \in 1..3 |-> SLin(p[i] -- q[i], n[i], N)]
SDot(a, b) == SAdd(SMul(a[1], b[1]), SAdd(SMul(a[2], b[2]), SMul(a[3], b[3])))
\* n . gradient of the edge from u to v, as a series
EdgeSlope(u, v, p, n, N) ==
  LET a == Rel(u, p, n, N) b == Rel(v, p, n, N)
      ra == SSqrt(SDot(a, a)) rb == SSqrt(SDot(b, b))
      rr == SMul(ra, rb)
      w == SDiv(SAdd(ra, rb), SMul(rr, SAdd(rr, SDot(a, b))))
      cr == << SSub(SMul(a[2], b[3]), SMul(a[3], b[2])), SSub(SMul(a[3], b[1]), SMul(a[1], b[3])), SSub(SMul(a[1], b[2]), SMul(a[2], b[1])) >>
      dotn == SAdd(SScale(n[1], cr[1]), SAdd(SScale(n[2], cr[2]), SScale(n[3], cr[3])))
  IN  SScale(RDiv(RI(-1), RI(2) ** RPi), SMul(dotn, w))
EdgeI(lp, i) == <<lp[i], lp[(i % Len(lp)) + 1]>>
\* derivatives along n of orders 1 .. N+1
LoopDeriv(lp, p, n, N) ==
  LET s == SSumSeq([i \in 1..Len(lp) |-> IF lp[i] = lp[(i % Len(lp)) + 1] THEN SConst(RZero, N)
                     ELSE EdgeSlope(EdgeI(lp, i)[1], EdgeI(lp, i)[2], p, n, N)], N)
  IN  TLCEval([k \in 1..(N + 1) |-> RI(Fact(k - 1)) ** s[k]])

\* a point pixel of unit area at v: z / (2 pi r^3), orders 0..N
PixelDeriv(v, p, n, N) ==
  LET a == Rel(v, p, n, N)
      r2 == SDot(a, a)
      s == SScale(RDiv(ROne, RI(2) ** RPi), SDiv(a[3], SMul(r2, SSqrt(r2))))
  IN  TLCEval([k \in 1..(N + 1) |-> RI(Fact(k - 1)) ** s[k]])

\* distance of p from the segment u v
Dist(u, v, p) ==
  LET a == P3(u) d == Vec(P3(v), a) w == Vec(p, a)
      dd == RDot(d, d)
      t == IF REq(dd, RZero) THEN RZero ELSE RMax(RZero, RNeg(RMax(RI(-1), RNeg(RDot(w, d) // dd))))
  IN  NormV([i \in 1..3 |-> w[i] -- (t ** d[i])])
RECURSIVE MinSeq(_)
MinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == MinSeq(Tail(s)) IN IF RLt(s[1], m) THEN s[1] ELSE m
LoopDist(lp, p) == MinSeq([i \in 1..Len(lp) |-> Dist(EdgeI(lp, i)[1], EdgeI(lp, i)[2], p)])
=============================================================================
