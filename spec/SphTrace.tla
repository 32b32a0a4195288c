------------------------------ MODULE SphTrace ------------------------------
(***************************************************************************)
(* Spherical harmonic analysis, spherical coordinates and grids (P41).     *)
(***************************************************************************)
EXTENDS SphHarm, SphIndex, TraceIn, SequencesExt

VARIABLES sc, k
Tol == R("1e-12")

\* the unit vector of the angles
Dir(th, ph) == <<RSin(th) ** RCos(ph), RSin(th) ** RSin(ph), RCos(th)>>

Zero(z) == z.re = "0.0" /\ z.im = "0.0"
At(a, N, q) == a[Row(N, q[1], q[2]) + 1][Col(N, q[1], q[2]) + 1]
\* the sum of the harmonics with the coefficients of the array a
Value(a, N, d) ==
  FoldLeft(LAMBDA s, q : IF Zero(At(a, N, q)) THEN s ELSE CAdd(s, CMul(CR(At(a, N, q)), YCplx(q[1], q[2], d))),
           CZero, SetToSeq(NM(N)))
Size(a) == RMax(R("1e-60"), RMaxAbs([i \in 1..Len(a) |-> RMaxAbs([j \in 1..Len(a) |-> CAbs(CR(a[i][j]))])]))

Mono(t, d) == CScale(RPow(d[1], t.i) ** RPow(d[2], t.j) ** RPow(d[3], t.k), CR(t.c))
Poly(p, d) == CSum([i \in 1..Len(p) |-> Mono(p[i], d)])

Jac(r, th, ph) ==
  << <<RSin(th) ** RCos(ph), r ** RCos(th) ** RCos(ph), RNeg(r ** RSin(th) ** RSin(ph))>>,
     <<RSin(th) ** RSin(ph), r ** RCos(th) ** RSin(ph), r ** RSin(th) ** RCos(ph)>>,
     <<RCos(th), RNeg(r ** RSin(th)), RZero>> >>

Near3(a, b, tol) == \A i \in 1..3 : RNear(a[i], b[i], tol)

GridV(e) ==
  LET N == e.N
      z == [i \in 1..N |-> RCos(R(e.theta[i]))]
      w == RSeq(e.weight)
  IN Clause("size", Len(e.theta) = N /\ Len(e.phi) = 2 * N /\ Len(e.weight) = N)
     \cup Clause("roots", \A i \in 1..N : RNear(Leg(N, 0, z[i]), RZero, R("1e-12") ** RI(N * N)))
     \cup Clause("distinct", \A i, j \in 1..N : i < j => ~RNear(z[i], z[j], R("1e-3")))
     \cup Clause("angles", \A j \in 1..2 * N : RNear(R(e.phi[j]), (RI(j - 1) ** RPi) // RI(N), R("1e-13")))
     \cup Clause("weights", \A p \in 0..(2 * N - 1) :
            RNear(RSum([i \in 1..N |-> w[i] ** RPow(z[i], p)]), IF p % 2 = 1 THEN RZero ELSE RI(2) // RI(p + 1), R("1e-12")))
     \cup Clause("indices", /\ Len(e.idx) = N * N
                            /\ {e.idx[i] : i \in 1..Len(e.idx)} = {<<q[1], q[2], Row(N, q[1], q[2]), Col(N, q[1], q[2])>> : q \in NM(N)})

Verdict(e) ==
  IF e.exc # "no" THEN {"unexpected_exception"} ELSE
  CASE e.kind = "grid" -> GridV(e)
    [] e.kind = "synthesis" ->
         Clause("values", \A i \in 1..Len(e.pts) :
            CNear(CR(e.pts[i].f), Value(e.a, e.N, Dir(R(e.pts[i].th), R(e.pts[i].ph))), Tol ** Size(e.a) ** RI(e.N)))
         \cup Clause("size", e.shape = <<e.N, 2 * e.N>>)
    [] e.kind = "analysis" ->
         LET s == RMaxAbs([i \in 1..Len(e.p) |-> CAbs(CR(e.p[i].c))]) IN
         Clause("coefficients", \A i \in 1..Len(Dirs) :
            CNear(Value(e.a, e.N, Dirs[i]), Poly(e.p, Dirs[i]), R("1e-12") ** s ** RI(Len(e.p))))
         \cup Clause("size", e.shape = <<e.N, e.N>>)
    [] e.kind = "round" ->
         Clause("inverse", \A i, j \in 1..e.N : CNear(CR(e.a[i][j]), CR(e.b[i][j]), R("1e-13") ** RI(e.N + 3) ** Size(e.a)))
    [] e.kind = "back" ->      \* analysis, then synthesis, of a band limited function
         Clause("inverse", \A i \in 1..Len(e.f) : CNear(CR(e.f[i]), CR(e.g[i]),
                  R("1e-12") ** RMaxAbs([j \in 1..Len(e.f) |-> CAbs(CR(e.f[j]))])))
    [] e.kind = "to_cartesian" ->
         Clause("point", \A i \in 1..Len(e.s) : LET s == RSeq(e.s[i]) IN
            Near3(RSeq(e.x[i]), [c \in 1..3 |-> s[1] ** Dir(s[2], s[3])[c]], R("1e-13") ** RAbs(s[1])))
    [] e.kind = "to_spherical" ->
         Clause("point", \A i \in 1..Len(e.s) : LET s == RSeq(e.s[i]) x == RSeq(e.x[i]) IN
            /\ Near3(x, [c \in 1..3 |-> s[1] ** Dir(s[2], s[3])[c]], R("1e-13") ** s[1])
            /\ RLe(RZero, s[1]) /\ RLe(RZero, s[2]) /\ RLe(s[2], RPi ++ R("1e-14"))
            /\ RLe(RAbs(s[3]), RPi ++ R("1e-14")))
    [] e.kind = "gradient" ->
         Clause("components", \A i \in 1..Len(e.s) :
            LET s == RSeq(e.s[i])
                J == Jac(s[1], s[2], s[3])
                c == RSeq(e.c[i])
                d == RSeq(e.d[i])
            IN Near3(c, [a \in 1..3 |-> RDot(J[a], d)], R("1e-11") ** (RMaxAbs(c) ++ (RMaxAbs(d) ** RMax(ROne, s[1])))))
    [] e.kind = "sgrid" ->
         LET N == e.N
             want(o, i, j) == [c \in 1..3 |-> R(e.origins[o][c]) ++ (R(e.r) ** Dir(R(e.theta[i]), R(e.phi[j]))[c])]
             tol == R("1e-13") ** (RAbs(R(e.r)) ++ RMaxAbs([o \in 1..Len(e.origins) |-> RMaxAbs(RSeq(e.origins[o]))]))
         IN Clause("shape", e.shape = <<Len(e.origins), N, 2 * N>> /\ Len(e.points) = Len(e.origins) * 2 * N * N)
            \cup Clause("grid", \A o \in 1..Len(e.origins), i \in 1..N, j \in 1..2 * N :
                   Near3([c \in 1..3 |-> R(e.xyz[c][o][i][j])], want(o, i, j), tol))
            \cup Clause("points", Len(e.points) # Len(e.origins) * 2 * N * N \/
                   \A o \in 1..Len(e.origins), i \in 1..N, j \in 1..2 * N :
                     Near3(RSeq(e.points[((((o - 1) * N) + (i - 1)) * (2 * N)) + j]), want(o, i, j), tol))
    [] OTHER -> {"unknown_event"}

Init == sc \in 1..TraceLen /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED sc /\ Report(sc, 1, Verdict(Trace[sc]))
Spec == Init /\ [][Next]_<<sc, k>>
=============================================================================
