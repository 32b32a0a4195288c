------------------------------ MODULE RotTrace ------------------------------
(* Euler angles (P35) and quaternions (P36): every recorded call against    *)
(* the definitions of Rot.                                                  *)
EXTENDS Rot, TraceIn
VARIABLES sc, k

M4(a) == TLCEval([i \in 1..4 |-> RSeq(a[i])])
Is4(a) == Len(a) = 4 /\ \A i \in 1..4 : Len(a[i]) = 4
Upper(m) == Mat(LAMBDA i, j : m[i][j])
Affine(m) == \A i \in 1..4 : REq(m[4][i], IF i = 4 THEN ROne ELSE RZero)
Linear3(m) == Affine(m) /\ \A i \in 1..3 : REq(m[i][4], RZero)
IntM(a) == Mat(LAMBDA i, j : RI(a[i][j]))
Tol == R("1e-13")
Loose == R("1e-12")
\* a recorded homogeneous matrix is the rotation W
IsRot(a, W, tol) == Is4(a) /\ LET m == M4(a) IN Linear3(m) /\ MNear(Upper(m), W, tol)
Q(a) == TLCEval(RSeq(a))
IsQ(a) == Len(a) = 4

\* ---- P35 ---------------------------------------------------------------
EulerVerdict(e) ==
  LET a == RSeq(e.angles)
      W == Euler(e.frame, e.ax, a[1], a[2], a[3])
      qs == TLCEval([i \in 1..Len(e.quats) |-> Q(e.quats[i])])
      big == Loose ** RMax(ROne, RMaxAbs(a))
  IN Clause("convention", e.tuple = CodeOf(e.frame, e.ax) /\ e.ax \in Sequences3)
     \cup Clause("model", e.model = <<>> \/ MNear(IntM(e.model), W, R("1e-14")))
     \cup Clause("matrix", \A i \in 1..Len(e.mats) : IsRot(e.mats[i], W, big))
     \cup Clause("quaternion", \A i \in 1..Len(qs) : IsQ(qs[i]) /\ RNear(QNorm2(qs[i]), ROne, Loose) /\ MNear(QRot(qs[i]), W, big))
     \cup Clause("failed", e.failed = <<>>)
\* angles recovered from a matrix that is a rotation up to rounding
BackVerdict(e) ==
  LET M == Upper(M4(e.M)) IN
  Clause("failed", e.failed = <<>>)
  \cup Clause("recovered", \A i \in 1..Len(e.angles) : LET a == RSeq(e.angles[i]) IN
         Len(a) = 3 /\ MNear(Euler(e.frame, e.ax, a[1], a[2], a[3]), M, Loose))
  \* via a quaternion: exactly that of the quaternion, which agrees with the matrix
  \cup Clause("via_quaternion", \A i \in 1..Len(e.viaq) : LET q == Q(e.viaq[i][1]) a == RSeq(e.viaq[i][2]) IN
         /\ Len(a) = 3 /\ MNear(QRot(q), M, R("1e-7"))
         /\ MNear(Euler(e.frame, e.ax, a[1], a[2], a[3]), QRot(q), Loose))
RefuseVerdict(e) == Clause("accepted", \A i \in 1..Len(e.excs) : e.excs[i] \in {"KeyError", "ValueError", "TypeError"})

\* ---- P36 ---------------------------------------------------------------
IQ(a) == [i \in 1..4 |-> RI(a[i])]
QuatVerdict(e) ==
  LET p == Q(e.p) q == Q(e.q) n == QNorm2(p) m == QNorm2(q)
      s == Tol ** RMax(ROne, RMaxAbs(p)) ** RMax(ROne, RMaxAbs(q))
      pq == QMul(p, q)
  IN Clause("failed", e.failed = <<>>)
     \cup Clause("model", e.model = <<>> \/ (/\ QNear(IQ(e.model[1].pq), pq, RZero)
                                             /\ MNear(Mat(LAMBDA i, j : RI(e.model[1].R[i][j]) // RI(e.model[1].n)), QRot(p), R("1e-14"))))
     \cup Clause("product", \A i \in 1..Len(e.mul) : QNear(Q(e.mul[i]), pq, s))
     \cup Clause("conjugate", \A i \in 1..Len(e.conj) : QNear(Q(e.conj[i]), QConj(p), RZero))
     \cup Clause("inverse", \A i \in 1..Len(e.inv) : QNear(QScale(n, Q(e.inv[i])), QConj(p), Tol ** RMax(ROne, n)))
     \cup Clause("action", \A i \in 1..Len(e.mat) : IsRot(e.mat[i], QRot(p), Tol))
     \cup Clause("composition", \A i \in 1..Len(e.matpq) : IsRot(e.matpq[i], MMul(QRot(p), QRot(q)), Loose))
     \cup Clause("parts", REq(R(e.real), p[1]) /\ VNear(RSeq(e.imag), QVec(p), RZero))
     \cup Clause("same", e.same)
     \cup Clause("input_changed", ~e.changed)
\* a proper rotation matrix, as quaternion
FromMatrixVerdict(e) ==
  LET M == Upper(M4(e.M)) IN
  Clause("failed", e.failed = <<>>)
  \cup Clause("quaternion", \A i \in 1..Len(e.q) : LET q == Q(e.q[i]) IN
       IsQ(q) /\ RNear(QNorm2(q), ROne, Loose) /\ MNear(QRot(q), M, R(e.tol)))
\* the rotation nearest to a matrix: R^T M symmetric, and no two of its eigenvalues add up to less than zero
Nearest(X, M, tol) ==
  LET S == TLCEval(MMul(MT(X), M))
      t == S[1][1] ++ S[2][2] ++ S[3][3]
      K == TLCEval(Mat(LAMBDA i, j : (IF i = j THEN t ++ tol ELSE RZero) -- ((S[i][j] ++ S[j][i]) // RI(2))))
  IN /\ MNear(S, MT(S), tol)
     /\ \A i \in 1..3 : RLe(RZero, K[i][i])
     /\ \A i, j \in 1..3 : i < j => RLe(RNeg(tol), (K[i][i] ** K[j][j]) -- (K[i][j] ** K[j][i]))
     /\ RLe(RNeg(tol), Det3(K))
NearestVerdict(e) ==
  LET M == Upper(M4(e.M)) IN
  Clause("failed", e.failed = <<>>)
  \cup Clause("nearest", \A i \in 1..Len(e.q) : Nearest(QRot(Q(e.q[i])), M, R("1e-9")))
AboutVerdict(e) ==
  LET a == R(e.angle) u == VUnit(RSeq(e.axis)) q == QTurn(u, a) W == Turn(u, a) IN
  Clause("failed", e.failed = <<>>)
  \cup Clause("axis_quaternion", \A i \in 1..Len(e.q) : QNear(Q(e.q[i]), q, Loose))
  \cup Clause("axis_matrix", \A i \in 1..Len(e.mats) : IsRot(e.mats[i], W, Loose))
  \cup Clause("spec", MNear(QRot(q), W, R("1e-30")))
  \cup Clause("input_changed", ~e.changed)
SlerpVerdict(e) ==
  LET p == QUnit(Q(e.p)) q0 == QUnit(Q(e.q))
      q == IF e.short /\ RLt(QDot(p, q0), RZero) THEN QNeg(q0) ELSE q0
      th == QAngle(p, q) f == R(e.f)
      phi == th ++ (RI(e.spin) ** RPi)
      same == RLt(th, R("3e-8")) \/ RLt(RPi -- th, R("3e-8"))
      \* the angle of nearly parallel quaternions follows from the cosine with the error eps / angle
      sn == RMax(RSin(th), R("1e-8"))
      tol == ((R("1e-13") ** (ROne ++ RAbs(f ** phi))) // sn) ++ ((R("2e-15") ** RAbs(RSin(f ** phi))) // (sn ** sn))
      W == QArc(p, q, f ** phi)
  IN Clause("failed", e.failed = <<>>)
     \cup Clause("arc", \A i \in 1..Len(e.r) : LET r == Q(e.r[i]) IN
            IsQ(r) /\ (IF REq(f, RZero) THEN QNear(r, p, Tol)
                       ELSE IF REq(f, ROne) THEN SameRot(r, q, Tol)
                       ELSE IF same THEN SameRot(r, p, R("1e-6") ** (ROne ++ RAbs(f)))
                       ELSE SameRot(r, W, RMax(Tol, tol))))
     \cup Clause("input_changed", ~e.changed)
\* random rotations: proper, and of constant density: the image of a small
\* cube of the three random numbers has the same volume everywhere
Gram(d) == LET G == Mat(LAMBDA i, j : RDot(d[i], d[j])) IN RSqrt(Det3(G))
RandomVerdict(e) ==
  LET q == Q(e.q) h == R(e.h)
      d == TLCEval([i \in 1..3 |-> LET a == Q(e.plus[i]) b == Q(e.minus[i]) IN [j \in 1..4 |-> (a[j] -- b[j]) // (RI(2) ** h)]])
  IN Clause("failed", e.failed = <<>>)
     \cup (IF e.failed # <<>> THEN {} ELSE
          Clause("unit", RNear(QNorm2(q), ROne, Tol))
          \cup Clause("proper", \A i \in 1..Len(e.mats) : LET m == M4(e.mats[i]) IN Linear3(m) /\ Proper(Upper(m), Loose))
          \cup Clause("uniform", e.plus = <<>> \/ RClose(Gram(d), RI(2) ** RPi ** RPi, R("1e-4"), RZero)))
Verdict(e) ==
  CASE e.kind = "euler" -> EulerVerdict(e)
    [] e.kind = "back" -> BackVerdict(e)
    [] e.kind = "refuse" -> RefuseVerdict(e)
    [] e.kind = "quat" -> QuatVerdict(e)
    [] e.kind = "frommatrix" -> FromMatrixVerdict(e)
    [] e.kind = "nearest" -> NearestVerdict(e)
    [] e.kind = "about" -> AboutVerdict(e)
    [] e.kind = "slerp" -> SlerpVerdict(e)
    [] e.kind = "random" -> RandomVerdict(e)
Init == sc \in 1..TraceLen /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED sc /\ Report(sc, 1, Verdict(Trace[sc]))
Spec == Init /\ [][Next]_<<sc, k>>
=============================================================================
