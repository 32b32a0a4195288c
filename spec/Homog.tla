------------------------------- MODULE Homog -------------------------------
(***************************************************************************)
(* What each homogeneous transformation does to a point, by its geometric  *)
(* definition; and 4 x 4 matrices acting on points.                        *)
(***************************************************************************)
EXTENDS Rot

Probe == TLCEval(<<VZero, E3(1), E3(2), E3(3), <<ROne, ROne, ROne>>, <<R("-0.5"), R("2"), R("0.3")>>, <<R("1.5"), R("-0.7"), R("-2.1")>>>>)

\* matrix times <<p, 1>>
Apply4(m, p) == LET h == [i \in 1..4 |-> (m[i][1] ** p[1]) ++ (m[i][2] ** p[2]) ++ (m[i][3] ** p[3]) ++ m[i][4]] IN TLCEval(h)
Weight(m, p) == (m[4][1] ** p[1]) ++ (m[4][2] ** p[2]) ++ (m[4][3] ** p[3]) ++ m[4][4]
Image(m, p) == LET h == Apply4(m, p) IN <<h[1] // h[4], h[2] // h[4], h[3] // h[4]>>
MatMax(m) == RMaxAbs([i \in 1..4 |-> RMaxAbs(m[i])])
M4Mul(a, b) == TLCEval([i \in 1..4 |-> [j \in 1..4 |-> (a[i][1] ** b[1][j]) ++ (a[i][2] ** b[2][j]) ++ (a[i][3] ** b[3][j]) ++ (a[i][4] ** b[4][j])]])
Ident4 == [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN ROne ELSE RZero]]
Of3(m, t) == [i \in 1..4 |-> [j \in 1..4 |-> IF i = 4 THEN (IF j = 4 THEN ROne ELSE RZero) ELSE IF j = 4 THEN t[i] ELSE m[i][j]]]

Height(p, o, n) == Dot(VSub(p, o), n)           \* over the plane through o with the unit normal n
Translate(d, p) == VAdd(p, d)
Reflect(o, n, p) == VSub(p, VScale(RI(2) ** Height(p, o, n), n))
RotateAbout(u, a, o, p) == VAdd(o, TurnV(u, RSin(a), RCos(a), VSub(p, o)))
ScaleAll(f, o, p) == VAdd(o, VScale(f, VSub(p, o)))
ScaleAlong(f, o, u, p) == VAdd(p, VScale((f -- ROne) ** Height(p, o, u), u))
ProjectOrtho(o, n, p) == VSub(p, VScale(Height(p, o, n), n))
ProjectAlong(o, n, d, p) == VSub(p, VScale(Height(p, o, n) // Dot(d, n), d))
\* where the line from the eye c through p meets the plane
ProjectFrom(o, n, c, p) == LET hp == Height(p, o, n) hc == Height(c, o, n)
                           IN VSub(p, VScale(hp // (hp -- hc), VSub(p, c)))
Shear(t, o, n, u, p) == VAdd(p, VScale(t ** Height(p, o, n), u))    \* t: tangent of the angle
Lin(lo, hi, x) == (((RI(2) ** x) -- lo) -- hi) // (hi -- lo)          \* lo -> -1, hi -> 1
=============================================================================
