---------------------------- MODULE ArcballTrace ----------------------------
(***************************************************************************)
(* Trackball (P42): histories of inputs, each with the orientation after   *)
(* it, against the trackball's state machine over real numbers.            *)
(*                                                                         *)
(* Where the inputs leave two successors (axes equally near, the last      *)
(* increment a half turn) all are followed, and those that do not explain  *)
(* what is observed next are dropped; one has to remain.                   *)
(***************************************************************************)
EXTENDS Rot, TraceIn
VARIABLES sc, k

Q(a) == TLCEval(RSeq(a))
Is4(a) == Len(a) = 4 /\ \A i \in 1..4 : Len(a[i]) = 4
Upper(a) == TLCEval(Mat(LAMBDA i, j : R(a[i][j])))
Affine(a) == \A i \in 1..4 : REq(R(a[4][i]), IF i = 4 THEN ROne ELSE RZero) /\ (i < 4 => REq(R(a[i][4]), RZero))

MapTo(c, r, p) ==
  LET x == (p[1] -- c[1]) // r y == (c[2] -- p[2]) // r n == (x ** x) ++ (y ** y)
  IN TLCEval(IF RLt(ROne, n) THEN <<x // RSqrt(n), y // RSqrt(n), RZero>> ELSE <<x, y, RSqrt(ROne -- n)>>)
Across(v, a) == TLCEval(VSub(v, VScale(Dot(a, v), a)))
Tiny == R("1e-9")
Least == R("1e-11")
Highest(d) == FoldLeft(LAMBDA a, b : RMax(a, b), d[1], d)
\* on the great circle about a, on the side one sees; right on the axis
\* any point of it would do, this is the convention
ConstrainTo(v, a) ==
  LET w == Across(v, a) n == VNorm(w) IN
  TLCEval(IF RLt(n, Tiny) THEN (IF RNear(RAbs(a[3]), ROne, R("1e-14")) THEN E3(1) ELSE VUnit(<<RNeg(a[2]), a[1], RZero>>))
          ELSE IF RLt(w[3], RZero) THEN VScale(RI(-1) // n, w) ELSE VScale(ROne // n, w))

\* how far rounding can move the mapped point: its height is a square root
Blur(c, r, v) ==
  LET e == R("1e-14") ** (ROne ++ (RMaxAbs(c) // RAbs(r)))
  IN IF RLt(v[3] ** v[3], e) THEN RI(4) ** RSqrt(e) ELSE RI(4) ** (e // v[3])
\* and the point constrained
Blur2(b, v, a) == IF a = <<>> THEN b ELSE LET n == VNorm(Across(v, a)) IN IF RLt(n, Tiny) THEN b ELSE b // n

\* ---- the state machine ---------------------------------------------------
Start(q) == [c |-> <<RZero, RZero>>, r |-> ROne, axes |-> <<>>, con |-> FALSE, axis |-> <<>>,
             vdown |-> E3(3), qdown |-> q, qpre |-> q, qnow |-> q,
             tol |-> Least, tpre |-> Least, tdown |-> Least]   \* bounds on rounding: of qnow, qpre, and of what drags start from
Down(s, p) ==
  LET v == MapTo(s.c, s.r, p) s2 == [s EXCEPT !.qdown = s.qnow, !.qpre = s.qnow, !.tpre = s.tol]
      bl == Blur(s.c, s.r, v)
      after(a) == TLCEval(RI(2) ** (s.tol ++ Blur2(bl, v, a)))
  IN IF s.con /\ s.axes # <<>>
     THEN LET n == Len(s.axes)
              w == TLCEval([i \in 1..n |-> ConstrainTo(v, s.axes[i])])
              d == TLCEval([i \in 1..n |-> Dot(w[i], v)])
              best == Highest(d)
          IN FoldLeft(LAMBDA a, i : IF RLt(d[i], best -- Tiny) THEN a
                                    ELSE Append(a, [s2 EXCEPT !.vdown = w[i], !.axis = s.axes[i], !.tdown = after(s.axes[i])]), <<>>, [i \in 1..n |-> i])
     ELSE <<[s2 EXCEPT !.vdown = v, !.axis = <<>>, !.tdown = after(<<>>)]>>
Drag(s, p) ==
  LET u == MapTo(s.c, s.r, p)
      w == IF s.axis = <<>> THEN u ELSE ConstrainTo(u, s.axis)
      t == TLCEval(Cross(s.vdown, w))
      q == QUnit(<<Dot(s.vdown, w), t[1], t[2], t[3]>>)
      close == RLt(VNorm(t), R("1e-7"))
  IN <<[s EXCEPT !.qpre = s.qnow, !.tpre = s.tol, !.qnow = TLCEval(IF close THEN s.qdown ELSE QMul(q, s.qdown)),
                 !.tol = TLCEval(s.tdown ++ (RI(2) ** Blur2(Blur(s.c, s.r, u), u, s.axis)) ++ (IF close THEN R("1e-6") ELSE RZero))]>>
Continue(s, acc) ==
  LET d == QDot(s.qpre, s.qnow)
      to == IF RLt(d, RZero) THEN QNeg(s.qnow) ELSE s.qnow
      a == QAngle(s.qpre, to)
      f == RI(2) ++ acc
      on(q, b) == [s EXCEPT !.qpre = s.qnow, !.tpre = s.tol, !.qnow = TLCEval(QArc(s.qpre, q, f ** b))]
      both == (RI(3) ++ RAbs(acc)) ** (s.tol ++ s.tpre)
      big == (ROne ++ RAbs(acc)) ** R("1e-6")
  IN IF RLt(a, R("1e-7")) THEN <<[s EXCEPT !.qpre = s.qnow, !.tpre = s.tol, !.tol = TLCEval(big ++ both)]>>
     ELSE IF RLt(RAbs(d), Tiny) THEN <<[on(to, a) EXCEPT !.tol = TLCEval(both)], [on(QNeg(to), RPi -- a) EXCEPT !.tol = TLCEval(both)]>>
     ELSE <<[on(to, a) EXCEPT !.tol = TLCEval(both)]>>
Succ(s, o) ==
  CASE o.op = "place" -> <<[s EXCEPT !.c = RSeq(o.c), !.r = R(o.r)]>>
    [] o.op = "axes" -> <<[s EXCEPT !.axes = TLCEval([i \in 1..Len(o.axes) |-> VUnit(RSeq(o.axes[i]))])]>>
    [] o.op = "constrain" -> <<[s EXCEPT !.con = o.on]>>
    [] o.op = "down" -> Down(s, RSeq(o.p))
    [] o.op = "drag" -> Drag(s, RSeq(o.p))
    [] o.op = "next" -> Continue(s, R(o.acc))
Shows(s, o) == Is4(o.M) /\ Affine(o.M) /\ o.con = s.con /\ MNear(Upper(o.M), QRot(s.qnow), s.tol)
\* carry on from what is observed, so that rounding does not add up: turn
\* the orientation by the small remaining rotation
Sync(s, M) ==
  LET d == TLCEval(MMul(Upper(M), MT(QRot(s.qnow))))
      h(i, j) == (d[i][j] -- d[j][i]) // RI(4)
  IN [s EXCEPT !.qnow = QUnit(QMul(<<ROne, h(3, 2), h(1, 3), h(2, 1)>>, s.qnow)), !.tol = Least]
Advance(a, o) ==
  IF a.bad # {} THEN a
  ELSE LET c == FoldLeft(LAMBDA x, s : FoldLeft(LAMBDA y, t : IF Shows(t, o) THEN Append(y, Sync(t, o.M)) ELSE y, x, Succ(s, o)), <<>>, a.c)
       IN IF o.failed # "" THEN [a EXCEPT !.bad = {"failed"}]
          ELSE IF c = <<>> THEN [a EXCEPT !.bad = {o.op}] ELSE [a EXCEPT !.c = TLCEval(c)]
BallVerdict(e) ==
  LET m == Upper(e.M0)
      \* the orientation to begin with
      ok == Is4(e.M0) /\ Affine(e.M0) /\
            (CASE e.init = "none" -> MNear(m, Ident, RZero)
               [] e.init = "quaternion" -> MNear(m, QRot(Q(e.q0)), R("1e-13"))
               [] e.init = "matrix" -> MNear(m, Upper(e.R0), R("1e-12")))
      q == IF e.init = "none" THEN QOne ELSE QUnit(Q(e.q0))
      z == FoldLeft(Advance, [c |-> <<Start(q)>>, bad |-> {}], e.ops)
  IN IF e.failed # "" THEN {"failed"} ELSE Clause("initial", ok) \cup z.bad
\* replayed behaviours of ArcballModel
IQ(a) == [i \in 1..4 |-> RI(a[i])]
WalkVerdict(e) ==
  Clause("failed", e.failed = <<>>)
  \cup UNION {Clause(e.ops[i], Is4(e.got[i]) /\ Affine(e.got[i]) /\ MNear(Upper(e.got[i]), QRot(IQ(e.want[i])), R("1e-12"))) : i \in 1..Len(e.got)}
\* ---- the functions -------------------------------------------------------
PointVerdict(e) ==
  LET w == MapTo(RSeq(e.c), R(e.r), RSeq(e.p)) IN
  Clause("failed", e.failed = <<>>)
  \cup Clause("mapped", \A i \in 1..Len(e.v) : LET v == RSeq(e.v[i]) IN
       VNear(v, w, R("1e-13") ++ Blur(RSeq(e.c), R(e.r), w)) /\ RNear(Dot(v, v), ROne, R("1e-13")))
CircleVerdict(e) ==
  LET a == RSeq(e.a) p == RSeq(e.p) w == Across(p, a) n == VNorm(w) big == RMax(ROne, VNorm(p)) IN
  Clause("failed", e.failed = <<>>)
  \cup Clause("across", \A i \in 1..Len(e.v) : LET v == RSeq(e.v[i]) IN
         /\ RNear(Dot(v, v), ROne, R("1e-12")) /\ RNear(Dot(v, a) ** (IF RLt(n, ROne) THEN n ELSE ROne), RZero, R("1e-13") ** big) /\ RLe(R("-1e-13"), v[3])
         /\ RLt(n, R("1e-14") ** big) \/ LET d == RAbs(Dot(v, w)) IN RNear(d, n, R("1e-12") ** big))
NearestVerdict(e) ==
  LET n == Len(e.axes) p == RSeq(e.p)
      d == TLCEval([i \in 1..n |-> LET a == RSeq(e.axes[i]) IN Dot(ConstrainTo(p, a), p)])
  IN Clause("failed", e.failed = <<>>)
     \cup Clause("nearest", \A j \in 1..Len(e.picked) : e.picked[j] \in 1..n /\ RLe(Highest(d) -- Tiny, d[e.picked[j]]))
RefuseVerdict(e) == Clause("accepted", \A i \in 1..Len(e.failed) : e.failed[i] = "ValueError")
Verdict(e) ==
  CASE e.kind = "ball" -> BallVerdict(e)
    [] e.kind = "walk" -> WalkVerdict(e)
    [] e.kind = "point" -> PointVerdict(e)
    [] e.kind = "circle" -> CircleVerdict(e)
    [] e.kind = "nearest" -> NearestVerdict(e)
    [] e.kind = "refuse" -> RefuseVerdict(e)

Init == sc \in 1..TraceLen /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED sc /\ Report(sc, 1, Verdict(Trace[sc]))
Spec == Init /\ [][Next]_<<sc, k>>
=============================================================================
