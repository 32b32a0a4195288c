------------------------------ MODULE RotModel ------------------------------
(***************************************************************************)
(* Rotations by quarter turns, exactly, with integers.                     *)
(*                                                                         *)
(* "euler": all 24 conventions with all triples of quarter turns.  Every   *)
(* entry of the matrix of a convention is of degree one in (1, cos, sin)   *)
(* of each angle, so four quarter turns determine it: an implementation    *)
(* that computes such entries and agrees on all 24 * 64 of them agrees for *)
(* all angles.  Checked: the results are rotations, and the encoding of    *)
(* the conventions by tuples is one to one.                                *)
(* "quat": products of quaternions are bilinear, so the 16 products of     *)
(* the units determine them; checked on all integer quaternions with       *)
(* entries -1..1: the norm is multiplicative, the action of a product is   *)
(* the composition.  Each state is printed for replay on the code.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode
VARIABLES st, done

Seq3 == {a \in [1..3 -> 1..3] : a[1] # a[2] /\ a[2] # a[3]}
Frames == {"s", "r"}
S4(k) == <<0, 1, 0, -1>>[(k % 4) + 1]
C4(k) == <<1, 0, -1, 0>>[(k % 4) + 1]
Nx(i) == (i % 3) + 1
\* the elementary rotation by k quarter turns about axis a: takes the next axis to the one after
El(a, k) == [i \in 1..3 |-> [j \in 1..3 |->
   IF i = a \/ j = a THEN (IF i = j THEN 1 ELSE 0)
   ELSE IF i = j THEN C4(k) ELSE IF i = Nx(Nx(a)) THEN S4(k) ELSE -S4(k)]]
Mul(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> a[i][1]*b[1][j] + a[i][2]*b[2][j] + a[i][3]*b[3][j]]]
Tr(a) == [i \in 1..3 |-> [j \in 1..3 |-> a[j][i]]]
Id == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]]
Det(a) == a[1][1]*(a[2][2]*a[3][3] - a[2][3]*a[3][2]) - a[1][2]*(a[2][1]*a[3][3] - a[2][3]*a[3][1])
          + a[1][3]*(a[2][1]*a[3][2] - a[2][2]*a[3][1])
Eul(f, ax, k) == IF f = "s" THEN Mul(El(ax[3], k[3]), Mul(El(ax[2], k[2]), El(ax[1], k[1])))
                 ELSE Mul(El(ax[1], k[1]), Mul(El(ax[2], k[2]), El(ax[3], k[3])))
Tup(f, ax) == LET s == IF f = "s" THEN ax ELSE <<ax[3], ax[2], ax[1]>>
              IN <<s[1] - 1, IF s[2] = Nx(s[1]) THEN 0 ELSE 1, IF s[3] = s[1] THEN 1 ELSE 0, IF f = "s" THEN 0 ELSE 1>>

QM(p, q) == <<p[1]*q[1] - p[2]*q[2] - p[3]*q[3] - p[4]*q[4], p[1]*q[2] + p[2]*q[1] + p[3]*q[4] - p[4]*q[3],
              p[1]*q[3] - p[2]*q[4] + p[3]*q[1] + p[4]*q[2], p[1]*q[4] + p[2]*q[3] - p[3]*q[2] + p[4]*q[1]>>
QC(q) == <<q[1], -q[2], -q[3], -q[4]>>
N2(q) == q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4]
Unit(i) == [j \in 1..4 |-> IF j = i THEN 1 ELSE 0]
\* the rotation times the squared norm
QR(q) == [i \in 1..3 |-> [j \in 1..3 |-> QM(QM(q, Unit(j + 1)), QC(q))[i + 1]]]
Quats == {q \in [1..4 -> -1..1] : N2(q) > 0}

Init == /\ done = FALSE
        /\ IF Mode = "euler" THEN st \in [f : Frames, ax : Seq3, k : [1..3 -> 0..3]]
           ELSE st \in [p : Quats, q : Quats]
Result == IF Mode = "euler"
          THEN [frame |-> st.f, ax |-> <<st.ax[1], st.ax[2], st.ax[3]>>, k |-> <<st.k[1], st.k[2], st.k[3]>>,
                tuple |-> Tup(st.f, st.ax), M |-> Eul(st.f, st.ax, st.k)]
          ELSE [p |-> st.p, q |-> st.q, pq |-> QM(st.p, st.q), R |-> QR(st.p), n |-> N2(st.p)]
Next == ~done /\ done' = TRUE /\ UNCHANGED st /\ PrintT(<<"GEN", ToJson(Result)>>)
Spec == Init /\ [][Next]_<<st, done>>

Proper == Mode = "euler" => LET M == Eul(st.f, st.ax, st.k) IN Mul(M, Tr(M)) = Id /\ Det(M) = 1
OneToOne == Mode = "euler" => Cardinality({Tup(f, ax) : f \in Frames, ax \in Seq3}) = 24
Scaled(n, m) == [i \in 1..3 |-> [j \in 1..3 |-> n * m[i][j]]]
Homomorphism == Mode = "quat" =>
   /\ N2(QM(st.p, st.q)) = N2(st.p) * N2(st.q)
   /\ QR(QM(st.p, st.q)) = Mul(QR(st.p), QR(st.q))
   /\ Det(QR(st.p)) = N2(st.p) * N2(st.p) * N2(st.p)
   /\ QM(st.p, QC(st.p)) = <<N2(st.p), 0, 0, 0>>
=============================================================================
