----------------------------- MODULE MotionTrace -----------------------------
(***************************************************************************)
(* P23 minima, saddles, modes; P24 Floquet solutions; P26 the report;      *)
(* P27 trajectories.                                                       *)
(***************************************************************************)
EXTENDS Motion, TraceIn
VARIABLES sc, k

Mat(a) == TLCEval([i \in 1..Len(a) |-> RSeq(a[i])])

\* ---- P23 ---------------------------------------------------------------------
\* e: els, scale, x0, axis (0-based), coord, found, and if found x, p (saddle);
\* vecs, vals: eigenvectors and eigenvalues of the curvature along the axes
ExtremumVerdict(e) ==
  IF ~e.found THEN {} ELSE
  LET F == Mat(e.coord)
      x == RSeq(e.x)
      X == TLCEval(FMul(F, x))
      tab == TotalTable(e.els, R(e.scale), X, 2)
      g == Pick1(InFrame1(F, GradOf(tab)), e.axis)
      h == TLCEval(Pick2(InFrame2(F, HessOf(tab)), e.axis))
      size == MaxAbs2(h)
      V == Mat(e.vecs) w == RSeq(e.vals)
      neg == {i \in 1..Len(w) : RLt(w[i], RZero)}
      InAxis(i) == \E j \in 1..Len(e.axis) : e.axis[j] = i - 1
  IN Clause("certificate_invalid", Orthonormal(V, R("1e-10")) /\ Eigen(h, V, w, R("1e-9") ** size))
     \cup Clause("fixed_coordinates", \A i \in 1..3 : InAxis(i) \/ REq(x[i], R(e.x0[i])))
     \cup Clause("gradient", RLe(RMaxAbs(g), R(e.tol) ** size))
     \cup Clause("curvature", Cardinality(neg) = (IF e.kind = "saddle" THEN 1 ELSE 0) /\ \A i \in 1..Len(w) : RLt(RZero, RAbs(w[i])))
     \cup (IF e.kind = "saddle" THEN Clause("height", RClose(R(e.p), At(tab, <<>>), R("1e-9"), R("1e-9") ** size)) ELSE {})
     \cup Clause("start_changed", ~e.changed)
     \* close to one of several minima it finds that one
     \cup Clause("strayed", e.near = "none" \/ RLe(RMaxAbs([i \in 1..3 |-> x[i] -- R(e.x0[i])]), R(e.near)))
\* searches that start next to a quadratic extremum succeed
FoundVerdict(e) == Clause("search_fails", e.found * 4 >= e.tried * 3)

ModesVerdict(e) ==
  LET tab == TotalTable(e.els, R(e.scale), RSeq(e.x), 2)
      h == HessOf(tab)
      w == RSeq(e.ew) V == Mat(e.emodes)
  IN Clause("shape", Len(w) = 3 /\ Len(V) = 3 /\ Len(V[1]) = 3)
     \cup (IF Len(w) # 3 \/ Len(V) # 3 THEN {} ELSE
       Clause("sorted", RLe(w[1], w[2]) /\ RLe(w[2], w[3]))
       \cup Clause("orthonormal", Orthonormal(V, R("1e-12")))
       \cup Clause("modes", Eigen(h, V, w, R("1e-11") ** MaxAbs2(h))))

\* ---- P24 ---------------------------------------------------------------------
\* A column c with exponent m: with D_l = m - 2 i s (l - r - 1) the velocity part
\* is D_l times the position part and D_l^2 c_l + sum_i a_i c_(l +- i) = 0; s is
\* the sign convention of the Fourier series.
Pos2(n, l, d, i) == ((l - 1) * 2 + d) * n + i        \* row of component l, derivative d, dimension i
ColOk(n, r, A, b, m, s, tol) ==
  LET L == 2 * r + 1
      c(l, d, i) == b[Pos2(n, l, d, i)]
      D(l) == CSub(m, <<RZero, RI(2 * s * (l - r - 1))>>)
      Force(l, i) == CSum(<<CZero>> \o [q \in 1..(Len(A) * L) |->
           LET a == ((q - 1) \div L) ll == ((q - 1) % L) + 1 IN
           IF ll = l + a \/ ll = l - a THEN CSum([j \in 1..n |-> CScale(A[a + 1][i][j], c(ll, 0, j))]) ELSE CZero])
  IN \A l \in 1..L : \A i \in 1..n :
       /\ CNear(c(l, 1, i), CMul(D(l), c(l, 0, i)), tol)
       /\ CNear(CAdd(CMul(D(l), c(l, 1, i)), Force(l, i)), CZero, tol)
Cols(e) == [q \in 1..Len(e.mu) |-> [p \in 1..Len(e.b) |-> CR(e.b[p][q])]]
FloquetOk(n, r, A, e, tol) ==
  LET mu == TLCEval([q \in 1..Len(e.mu) |-> CR(e.mu[q])])
      f == IF e.halved THEN RI(2) ELSE ROne
      cols == TLCEval(Cols(e))
      Ok(s) == \A q \in 1..Len(mu) : ColOk(n, r, A, cols[q], CScale(f, mu[q]), s, tol)
  IN  Ok(1) \/ Ok(-1)
CoefSize(A) == ROne ++ RSum([i \in 1..Len(A) |-> MaxAbs2(A[i])])
Normed(e) == \A q \in 1..Len(e.mu) : RClose(RSum([p \in 1..Len(e.b) |-> CAbs2(CR(e.b[p][q]))]), ROne, R("1e-9"), RZero)
FloquetVerdict(e) ==
  LET A == TLCEval([i \in 1..Len(e.a) |-> Mat(e.a[i])])
      n == e.n L == 2 * e.r + 1
      mu == TLCEval([q \in 1..Len(e.mu) |-> CR(e.mu[q])])
      tol == R("1e-9") ** CoefSize(A) ** RI(L * L)
      \* the sum of the squares of all eigenvalues
      tr2 == RNeg((RI(2 * L) ** RSum([i \in 1..n |-> A[1][i][i]])) ++ RI((8 * n * e.r * (e.r + 1) * L) \div 3))
  IN Clause("number", Len(mu) = 2 * n * L /\ Len(e.b) = 2 * n * L /\ \A p \in 1..Len(e.b) : Len(e.b[p]) = 2 * n * L)
     \cup (IF Len(mu) # 2 * n * L \/ Len(e.b) # 2 * n * L THEN {} ELSE
     Clause("trivial_mode", Normed(e))
     \cup Clause("harmonic_balance", FloquetOk(n, e.r, A, e, tol))
     \cup Clause("exponents_incomplete", CNear(CSum(mu), CZero, tol)
           /\ CNear(CSum([q \in 1..Len(mu) |-> CMul(mu[q], mu[q])]), <<tr2, RZero>>, tol ** RI(10))))
\* of a system: the coefficients from its curvatures
SysFloquetVerdict(e) ==
  LET s2 == R(e.scale) ** R(e.scale)
      x == RSeq(e.x)
      Coef(v, f) == LET h == HessOf(Volts(e.els, v, x, 2)) IN [i \in 1..3 |-> [j \in 1..3 |-> RI(f) ** (s2 ** h[i][j])]]
      A == TLCEval(<<Coef(DcV(e.els), 16), Coef(RfV(e.els), 8)>>)
      L == 2 * e.r + 1
      mu == TLCEval([q \in 1..Len(e.mu) |-> CR(e.mu[q])])
      all == TLCEval([q \in 1..Len(e.all) |-> CR(e.all[q])])
      want == {q \in 1..Len(all) : RLe(RZero, all[q][2])}
      tol == R("1e-9") ** CoefSize(A) ** RI(L * L)
      rows == \A p \in 1..Len(e.b) : Len(e.b[p]) = Len(mu)
  IN Clause("shape", Len(e.b) = 6 * L /\ rows)
     \cup (IF Len(e.b) # 6 * L \/ ~rows THEN {} ELSE
       Clause("trivial_mode", Normed(e))
       \cup Clause("harmonic_balance", FloquetOk(3, e.r, A, e, tol))
       \cup (IF e.sorted THEN
          Clause("selection", Len(mu) = Cardinality(want) /\ \A q \in want : \E p \in 1..Len(mu) : CNear(mu[p], all[q], R("1e-9")))
          \cup Clause("negative_frequency", \A q \in 1..Len(mu) : RLe(RZero, mu[q][2]))
          \cup Clause("sorted", \A q \in 2..Len(mu) : RLe(mu[q - 1][2], mu[q][2]))
        ELSE Clause("number", Len(mu) = 6 * L)))

\* ---- P27 ---------------------------------------------------------------------
\* The driver's integrator is a symplectic Euler step; the specification runs it
\* with its own acceleration.  e.steps: [t, q, p] as yielded; e.calls: [q, t, f]
Acc(e, q, t) == LET x == TLCEval([i \in 1..3 |-> IF \E j \in 1..Len(e.axis) : e.axis[j] = i - 1
                                         THEN q[CHOOSE j \in 1..Len(e.axis) : e.axis[j] = i - 1] ELSE R(e.x0[i])])
                    g == TLCEval(GradOf(InstantTable(e.els, x, 1, t)))
                IN  TLCEval([j \in 1..Len(e.axis) |-> RNeg(g[e.axis[j] + 1])])
StepTo(e, s) == LET dt == R(e.dt)
                    f == TLCEval(Acc(e, s.q, s.t))
                    p == TLCEval([j \in 1..Len(f) |-> s.p[j] ++ (f[j] ** dt)])
                IN  [t |-> s.t ++ dt, p |-> p, q |-> TLCEval([j \in 1..Len(f) |-> s.q[j] ++ (p[j] ** dt)])]
Start(e) == [t |-> R(e.t0), p |-> Pick1(RSeq(e.v0), e.axis), q |-> Pick1(RSeq(e.x0), e.axis)]
RECURSIVE Orbit(_, _)
Orbit(e, s) == IF RLt(s.t, R(e.t1)) THEN LET n == TLCEval(StepTo(e, s)) IN <<n>> \o Orbit(e, n) ELSE <<>>
Near1(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RNear(a[i], b[i], tol)
TrajectoryVerdict(e) ==
  LET o == TLCEval(Orbit(e, Start(e))) IN
  Clause("steps", Len(e.steps) = Len(o))
  \cup (IF Len(e.steps) # Len(o) THEN {} ELSE
    UNION {LET s == e.steps[i] IN
       Clause("time", RNear(R(s.t), o[i].t, R("1e-12") ** RMax(ROne, RAbs(o[i].t))))
       \cup Clause("position", Near1(RSeq(s.q), o[i].q, R("1e-9")))
       \cup Clause("velocity", Near1(RSeq(s.p), o[i].p, R("1e-9"))) : i \in 1..Len(o)})
  \cup UNION {LET c == e.calls[i] IN Clause("acceleration", Near1(RSeq(c.f), Acc(e, RSeq(c.q), R(c.t)), R("1e-9"))) : i \in 1..Len(e.calls)}
  \cup Clause("arguments_changed", ~e.changed)
  \cup Clause("options", e.passed)

\* ---- P26 ---------------------------------------------------------------------
\* printed with so many significant digits
Shown(s, want, digits) == s # "missing" /\ RNear(R(s), want, (R("0.5001") // RPow(RI(10), digits - 1)) ** RMax(RAbs(want), RAbs(R(s))))
\* arrays are printed with 8 decimals, in scientific notation relative to each entry, else fixed
ShownArr(a, w, scale) == Len(a) = Len(w) /\
  LET v == TLCEval([i \in 1..Len(w) |-> scale ** R(w[i])])
      mx == RMaxAbs(v)
      tol == R("6e-9") ** (IF RLt(mx, R("1e-4")) THEN mx ELSE RMax(ROne, mx))
  IN  \A i \in 1..Len(a) : RNear(R(a[i]), v[i], tol)
Pi2 == RI(2) ** RPi
ReportVerdict(e) ==
  LET r == e.report q == e.query
      m == R(e.m) ch == R(e.q) l == R(e.l) o == R(e.o)
      um == R("1e-6") mega == R("1e6")
      frq(c) == IF RLe(RZero, c) THEN RSqrt((ch ** c) // m) // (Pi2 ** l) ELSE RI(-1)
      mfr(mu) == (R(mu.im) ** o) // Pi2
      \* heating: sum over electrodes of the squared field noise, un = 1e-9 V
      se(j, i) == (R("1e-9") ** R(q.fields[j][i])) // l
      ne == Len(q.fields)
      sem(a) == RSum([j \in 1..ne |-> LET d == RSum([i \in 1..3 |-> se(j, i) ** R(q.mmodes[i][a])]) IN d ** d])
  IN Clause("f", Shown(r.f, o // (Pi2 ** mega), 3))
     \cup Clause("m", Shown(r.m, m // R(e.amu), 3))
     \cup Clause("q", Shown(r.q, ch // R(e.qe), 3))
     \cup Clause("l", Shown(r.l, l // um, 3))
     \cup Clause("scale", Shown(r.scale, R(q.scale), 3))
     \cup Clause("point", ShownArr(r.point, e.x, ROne) /\ ShownArr(r.point_um, e.x, l // um))
     \cup Clause("minimum", ShownArr(r.min, q.min, ROne) /\ ShownArr(r.min_um, q.min, l // um))
     \cup Clause("dc", Shown(r.dc, R(q.dc), 2))
     \cup Clause("pseudo", Shown(r.pp, R(q.pp), 2))
     \cup Clause("saddle", IF Len(q.saddle) = 0 THEN r.saddle = "not found"
           ELSE r.saddle = "found" /\ ShownArr(r.sad, q.saddle, ROne) /\ ShownArr(r.sad_um, q.saddle, l // um)
                /\ Shown(r.height, R(q.height) -- (R(q.dc) ++ R(q.pp)), 2))
     \cup Clause("force_dc", ShownArr(r.fdc, q.fdc, ROne) /\ ShownArr(r.fdc_m, q.fdc, ROne // l))
     \cup Clause("force_pp", ShownArr(r.frf, q.frf, ROne) /\ ShownArr(r.frf_m, q.frf, ROne // l))
     \cup Clause("curvatures", ShownArr(r.curv, q.curv, ROne))
     \cup Clause("bounded", r.bounded = q.bounded)
     \cup Clause("pp_frequencies", Len(r.ppf) = 3 /\ \A i \in 1..3 : IF RLt(R(q.curv[i]), RZero) THEN r.ppf[i] = "nan"
              ELSE Shown(r.ppf[i], frq(R(q.curv[i])) // mega, 4))
     \cup Clause("pp_modes", Len(r.ppm) = 3 /\ \A i \in 1..3 : ShownArr(r.ppm[i], [j \in 1..3 |-> q.modes[j][i]], ROne))
     \cup Clause("mathieu_frequencies", Len(r.mf) = 3 /\ \A i \in 1..3 : Shown(r.mf[i], mfr(q.mu[i]) // mega, 4))
     \cup Clause("mathieu_modes", Len(r.mm) = 3 /\ \A i \in 1..3 : ShownArr(r.mm[i], [j \in 1..3 |-> q.mmodes[j][i]], ROne))
     \cup Clause("noise", Len(r.psd) = 3 /\ \A i \in 1..3 : LET w == RSum([j \in 1..ne |-> se(j, i) ** se(j, i)]) IN RNear(R(r.psd[i]), w, R("2e-6") ** RMax(w, RMaxAbs(RSeq(r.psd)))))
     \cup Clause("heating", Len(r.sef) = 3 /\ \A i \in 1..3 : RLt(sem(i), R("1e-6") ** RMaxAbs(RSeq(r.psd))) \/
              (Shown(r.sef[i], sem(i) ** mfr(q.mu[i]), 4) /\ Shown(r.ndot[i], (sem(i) ** (ch ** ch)) // (RI(4) ** (m ** (R(e.h) ** mfr(q.mu[i])))), 4)))
     \cup Clause("log", e.logged)
     \cup Clause("changed", ~e.changed)

Verdict(e) ==
  Clause("exception_" \o e.exc, e.exc = "no")
  \cup (IF e.exc # "no" THEN {} ELSE
        CASE e.kind \in {"minimum", "saddle"} -> ExtremumVerdict(e)
          [] e.kind = "found" -> FoundVerdict(e)
          [] e.kind = "modes" -> ModesVerdict(e)
          [] e.kind = "floquet" -> FloquetVerdict(e)
          [] e.kind = "sysfloquet" -> SysFloquetVerdict(e)
          [] e.kind = "trajectory" -> TrajectoryVerdict(e)
          [] e.kind = "report" -> ReportVerdict(e))
Init == sc \in 1..TraceLen /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED sc /\ Report(sc, 1, Verdict(Trace[sc]))
Spec == Init /\ [][Next]_<<sc, k>>
=============================================================================
