---------------------------- MODULE ArcballModel ----------------------------
(***************************************************************************)
(* The trackball (P42) on the five points of its sphere that lie on the    *)
(* axes: its centre and the rim right, left, above and below.  Arcs        *)
(* between them are quarter or half circles, orientations the quaternion   *)
(* units up to sign, so everything is exact.  A place is where the ball    *)
(* is in the window; y points down in the window and up on the sphere.     *)
(*                                                                         *)
(* One step per input.  Every transition is printed for replay, with the   *)
(* inputs leading there and the orientation afterwards.  Presses with two  *)
(* axes equally near, and points right on the axis, where the arc is not   *)
(* defined, are left out.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
VARIABLES place, axes, con, axis, vdown, qdown, qpre, qnow, vnow, hist, last
state == <<place, axes, con, axis, vdown, qdown, qpre, qnow, last>>
vars == <<state, vnow, hist>>

Places == <<<<0, 0, 1>>, <<320, 240, 160>>>>       \* centre and radius
Dirs == <<<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>>>
Points == 1..5
Axes == <<{}, {1}, {3}, {1, 2}, {2, 3}>>           \* sets of coordinate axes
AxesOrder(i) == <<<<>>, <<1>>, <<3>>, <<1, 2>>, <<2, 3>>>>[i]
\* the point p of the sphere, hit inside of the rim's distance or outside
Sphere(p) == <<<<0, 0, 1>>, <<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>>>[p]
Window(p, far) == LET pl == Places[place] d == Dirs[p]
                  IN <<pl[1] + far * pl[3] * d[1], pl[2] - far * pl[3] * d[2]>>
OnAxis(p, a) == Sphere(p)[a] # 0

Dt(v, w) == v[1]*w[1] + v[2]*w[2] + v[3]*w[3]
Cr(v, w) == <<v[2]*w[3] - v[3]*w[2], v[3]*w[1] - v[1]*w[3], v[1]*w[2] - v[2]*w[1]>>
QM(p, q) == <<p[1]*q[1] - p[2]*q[2] - p[3]*q[3] - p[4]*q[4], p[1]*q[2] + p[2]*q[1] + p[3]*q[4] - p[4]*q[3],
              p[1]*q[3] - p[2]*q[4] + p[3]*q[1] + p[4]*q[2], p[1]*q[4] + p[2]*q[3] - p[3]*q[2] + p[4]*q[1]>>
QC(q) == <<q[1], -q[2], -q[3], -q[4]>>
Abs(x) == IF x < 0 THEN -x ELSE x
Canon(q) == [i \in 1..4 |-> Abs(q[i])]             \* one of the units
One == <<1, 0, 0, 0>>
Act(q, v) == LET r == QM(QM(q, <<0, v[1], v[2], v[3]>>), QC(q)) IN <<r[2], r[3], r[4]>>

Init == /\ place = 1 /\ axes = 1 /\ con = FALSE /\ axis = 0 /\ vdown = 1 /\ vnow = 1
        /\ qdown = One /\ qpre = One /\ qnow = One
        /\ hist = <<>> /\ last = "none"
Done(op) == /\ hist' = Append(hist, op) /\ last' = op.op
            /\ PrintT(<<"GEN", ToJson([prefix |-> hist, op |-> op, want |-> qnow'])>>)

Place == \E i \in DOMAIN Places : i # place /\ place' = i
  /\ UNCHANGED <<axes, con, axis, vdown, qdown, qpre, qnow, vnow>>
  /\ Done([op |-> "place", c |-> <<Places[i][1], Places[i][2]>>, r |-> Places[i][3]])
SetAxes == \E i \in DOMAIN Axes : i # axes /\ axes' = i
  /\ UNCHANGED <<place, con, axis, vdown, qdown, qpre, qnow, vnow>>
  /\ Done([op |-> "axes", axes |-> AxesOrder(i)])
Constrain == con' = ~con /\ UNCHANGED <<place, axes, axis, vdown, qdown, qpre, qnow, vnow>>
  /\ Done([op |-> "constrain", on |-> con'])
\* a press fixes the axis for the drags that follow: the one with the nearest arc
Down == \E p \in Points, far \in {1, 2} :
  LET free == {a \in Axes[axes] : ~OnAxis(p, a)} IN
  /\ (p = 1 => far = 1)
  /\ IF con /\ axes # 1 THEN Cardinality(free) = 1 /\ axis' = CHOOSE a \in free : TRUE ELSE axis' = 0
  /\ vdown' = p /\ vnow' = p /\ qdown' = qnow /\ qpre' = qnow
  /\ UNCHANGED <<place, axes, con, qnow>>
  /\ Done([op |-> "down", p |-> Window(p, far)])
Drag == \E p \in Points, far \in {1, 2} :
  /\ (p = 1 => far = 1) /\ (axis # 0 => ~OnAxis(p, axis))
  /\ LET v == Sphere(vdown) w == Sphere(p) c == Cr(v, w)
         q == IF c = <<0, 0, 0>> THEN One ELSE <<Dt(v, w), c[1], c[2], c[3]>>
     IN qnow' = Canon(QM(q, qdown))
  /\ qpre' = qnow /\ vnow' = p
  /\ UNCHANGED <<place, axes, con, axis, vdown, qdown>>
  /\ Done([op |-> "drag", p |-> Window(p, far)])
\* the last increment once more, 1 + acceleration times
RECURSIVE Pow(_, _)
Pow(q, k) == IF k = 0 THEN One ELSE IF k > 0 THEN QM(q, Pow(q, k - 1)) ELSE QM(QC(q), Pow(q, k + 1))
Continue == \E acc \in {-2, -1, 0, 1} :
  /\ qnow' = Canon(QM(Pow(QM(qnow, QC(qpre)), 1 + acc), qnow)) /\ qpre' = qnow
  /\ UNCHANGED <<place, axes, con, axis, vdown, vnow, qdown>>
  /\ Done([op |-> "next", acc |-> acc])
Next == Len(hist) < Depth /\ (Place \/ SetAxes \/ Constrain \/ Down \/ Drag \/ Continue)
Spec == Init /\ [][Next]_vars

Units == {Canon([i \in 1..4 |-> IF i = j THEN 1 ELSE 0]) : j \in 1..4}
Oriented == qdown \in Units /\ qpre \in Units /\ qnow \in Units
Since == QM(qnow, QC(qdown))
\* under a constraint nothing but rotations about the axis
AboutAxis == axis # 0 => LET e == [i \in 1..3 |-> IF i = axis THEN 1 ELSE 0] IN Act(Since, e) = e
\* a drag is the product of the reflections in the two points: twice the arc
TwiceTheArc == last = "drag" =>
  LET v == Sphere(vdown) w == Sphere(vnow) IN Act(Since, v) = [i \in 1..3 |-> 2 * Dt(v, w) * w[i] - v[i]]
\* back at the point pressed: back at the orientation when pressed
Returns == last \in {"drag", "down"} /\ vnow = vdown => qnow = qdown
=============================================================================
