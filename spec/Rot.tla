-------------------------------- MODULE Rot --------------------------------
(***************************************************************************)
(* Rotations of space: what the words mean.                                *)
(*                                                                         *)
(* Vectors are sequences of three numbers, matrices sequences of rows.     *)
(* Turn(u, a) is the rotation by the angle a about the unit vector u,      *)
(* right handed.  An axis convention is a frame ("s": the axes stay,       *)
(* "r": they turn along) and three axes.  A quaternion <<w, x, y, z>>      *)
(* stands for the rotation v |-> q v q^-1.                                 *)
(***************************************************************************)
EXTENDS Num, TLC, SequencesExt, FiniteSets

V3(x, y, z) == <<x, y, z>>
VAdd(a, b) == <<a[1] ++ b[1], a[2] ++ b[2], a[3] ++ b[3]>>
VSub(a, b) == <<a[1] -- b[1], a[2] -- b[2], a[3] -- b[3]>>
VScale(s, a) == <<s ** a[1], s ** a[2], s ** a[3]>>
Dot(a, b) == (a[1] ** b[1]) ++ (a[2] ** b[2]) ++ (a[3] ** b[3])
Cross(a, b) == <<(a[2] ** b[3]) -- (a[3] ** b[2]), (a[3] ** b[1]) -- (a[1] ** b[3]), (a[1] ** b[2]) -- (a[2] ** b[1])>>
VNorm(a) == RSqrt(Dot(a, a))
VUnit(a) == LET n == VNorm(a) IN <<a[1] // n, a[2] // n, a[3] // n>>
VZero == <<RZero, RZero, RZero>>
E3(i) == [j \in 1..3 |-> IF i = j THEN ROne ELSE RZero]
VNear(a, b, tol) == \A i \in 1..3 : RNear(a[i], b[i], tol)

\* 3 x 3 matrices
Mat(f(_, _)) == <<<<f(1,1), f(1,2), f(1,3)>>, <<f(2,1), f(2,2), f(2,3)>>, <<f(3,1), f(3,2), f(3,3)>>>>
MMul(a, b) == Mat(LAMBDA i, j : (a[i][1] ** b[1][j]) ++ (a[i][2] ** b[2][j]) ++ (a[i][3] ** b[3][j]))
MVec(a, v) == <<Dot(a[1], v), Dot(a[2], v), Dot(a[3], v)>>
MT(a) == Mat(LAMBDA i, j : a[j][i])
Ident == Mat(LAMBDA i, j : IF i = j THEN ROne ELSE RZero)
Det3(a) == Dot(a[1], Cross(a[2], a[3]))
MNear(a, b, tol) == \A i, j \in 1..3 : RNear(a[i][j], b[i][j], tol)
Proper(a, tol) == MNear(MMul(a, MT(a)), Ident, tol) /\ RNear(Det3(a), ROne, tol)
\* the matrix with the columns a, b, c
Cols(a, b, c) == MT(<<a, b, c>>)

\* v turned about the unit vector u, from the definition: the component along
\* u stays, the one across turns in the plane it spans with its cross product
TurnV(u, s, c, v) ==
  LET p == VScale(Dot(u, v), u) q == VSub(v, p)
  IN VAdd(p, VAdd(VScale(c, q), VScale(s, Cross(u, q))))
TurnSC(u, s, c) == Cols(TurnV(u, s, c, E3(1)), TurnV(u, s, c, E3(2)), TurnV(u, s, c, E3(3)))
Turn(u, a) == TurnSC(u, RSin(a), RCos(a))
About(i, a) == TLCEval(Turn(E3(i), a))

\* ---- Euler angles ------------------------------------------------------
Sequences3 == {a \in [1..3 -> 1..3] : a[1] # a[2] /\ a[2] # a[3]}
\* static axes: the first rotation is applied first; turning axes: each
\* rotation is about an axis the later ones leave in the body
Euler(frame, ax, ai, aj, ak) ==
  LET A == About(ax[1], ai) B == About(ax[2], aj) D == About(ax[3], ak)
  IN TLCEval(IF frame = "s" THEN MMul(D, MMul(B, A)) ELSE MMul(A, MMul(B, D)))
Next3(i) == (i % 3) + 1
\* the encoding of a convention as <<inner axis, parity, repetition, frame>>:
\* turning axes are static axes read backwards
CodeOf(frame, ax) ==
  LET s == IF frame = "s" THEN ax ELSE <<ax[3], ax[2], ax[1]>>
  IN <<s[1] - 1, IF s[2] = Next3(s[1]) THEN 0 ELSE 1, IF s[3] = s[1] THEN 1 ELSE 0, IF frame = "s" THEN 0 ELSE 1>>

\* ---- quaternions -------------------------------------------------------
QMul(p, q) ==
  <<(p[1] ** q[1]) -- (p[2] ** q[2]) -- (p[3] ** q[3]) -- (p[4] ** q[4]),
    (p[1] ** q[2]) ++ (p[2] ** q[1]) ++ (p[3] ** q[4]) -- (p[4] ** q[3]),
    (p[1] ** q[3]) -- (p[2] ** q[4]) ++ (p[3] ** q[1]) ++ (p[4] ** q[2]),
    (p[1] ** q[4]) ++ (p[2] ** q[3]) -- (p[3] ** q[2]) ++ (p[4] ** q[1])>>
QConj(q) == <<q[1], RNeg(q[2]), RNeg(q[3]), RNeg(q[4])>>
QScale(s, q) == [i \in 1..4 |-> s ** q[i]]
QNeg(q) == [i \in 1..4 |-> RNeg(q[i])]
QDot(p, q) == RDot(p, q)
QNorm2(q) == QDot(q, q)
QUnit(q) == LET n == RSqrt(QNorm2(q)) IN TLCEval([i \in 1..4 |-> q[i] // n])
QInv(q) == LET n == QNorm2(q) IN [i \in 1..4 |-> QConj(q)[i] // n]
QNear(p, q, tol) == \A i \in 1..4 : RNear(p[i], q[i], tol)
QOf(v) == <<RZero, v[1], v[2], v[3]>>
QVec(q) == <<q[2], q[3], q[4]>>
QActs(q, v) == QVec(QMul(QMul(q, QOf(v)), QInv(q)))
QRot(q) == TLCEval(Cols(QActs(q, E3(1)), QActs(q, E3(2)), QActs(q, E3(3))))
QTurn(u, a) == LET h == a // RI(2) s == RSin(h) IN <<RCos(h), s ** u[1], s ** u[2], s ** u[3]>>
QOne == <<ROne, RZero, RZero, RZero>>
\* the turn between two unit quaternions: [angle |-> half the rotation angle, dir |-> unit tangent]
\* of the great arc from p to q (not opposite)
QAngle(p, q) == LET d == QDot(p, q)
                    t == [i \in 1..4 |-> q[i] -- (d ** p[i])]
                IN RAtan2(RSqrt(QNorm2(t)), d)
\* the point at the angle a on the great circle from p in the direction of q
QArc(p, q, a) ==
  LET d == QDot(p, q)
      t == TLCEval([i \in 1..4 |-> q[i] -- (d ** p[i])])
      n == RSqrt(QNorm2(t))
      s == RSin(a) c == RCos(a)
  IN TLCEval([i \in 1..4 |-> (c ** p[i]) ++ ((s ** t[i]) // n)])
SameRot(p, q, tol) == QNear(p, q, tol) \/ QNear(p, QNeg(q), tol)
=============================================================================
