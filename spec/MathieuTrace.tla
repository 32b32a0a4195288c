---------------------------- MODULE MathieuTrace ----------------------------
(* P25: the Mathieu function class against MathieuEq. *)
EXTENDS MathieuEq, TraceIn
VARIABLES sc, k

\* e.y1, e.y2: recorded [t, d, v]: derivative d at time t;  e.tol: accuracy of nu
SolVerdict(e) ==
  LET a == R(e.a) q == R(e.q) ser == TLCEval(Series(a, q))
      At(t, col, d) == LET F == TLCEval(Fund(ser, t)) IN Derivs(<<F[1][col], F[2][col]>>, a, q, t, d)[d + 1]
      sc2 == RMax(ROne, RAbs(a) ++ RAbs(RI(2) ** q))
      Tol(t, d) == (R("1e-9") ++ (R(e.tol) ** (ROne ++ RAbs(t)))) ** RPow(RI(4), d)
      Good(s, col) == \A i \in 1..Len(s) : RNear(R(s[i].v), At(R(s[i].t), col, s[i].d), Tol(R(s[i].t), s[i].d))
      cc == RSeq(e.cc) cs == RSeq(e.cs) nu == R(e.nu) n == (Len(cc) - 1) \div 2
      fr(i) == nu ++ RI(2 * (i - n - 1))
      Rec(c) == \A i \in 2..(2 * n) : RNear(q ** (c[i - 1] ++ c[i + 1]), (a -- (fr(i) ** fr(i))) ** c[i], R("1e-9") ** RMaxAbs(c) ++ (R(e.tol) ** RI(4) ** RMaxAbs(c)))
  IN Clause("even_solution", Good(e.y1, 1))
     \cup Clause("odd_solution", Good(e.y2, 2))
     \cup Clause("order", (e.nc = -1 \/ Len(cc) = 2 * e.nc + 1) /\ Len(cs) = Len(cc) /\ Len(cc) % 2 = 1)
     \cup Clause("normalisation", RNear(RSum(cc), ROne, R("1e-9")) /\ RNear(RSum([i \in 1..Len(cs) |-> cs[i] ** fr(i)]), ROne, R("1e-9")))
     \cup Clause("recurrence", Rec(cc) /\ Rec(cs))
     \cup Clause("value_type", e.scalar)
\* superposition A y1 + B y2 with the given value and slope at t0
InitVerdict(e) ==
  LET a == R(e.a) q == R(e.q) F == TLCEval(Fund(Series(a, q), R(e.t0)))
      ab == RSeq(e.ab)
      tol == (R("1e-9") ++ (R(e.tol) ** (ROne ++ RAbs(R(e.t0))))) ** RI(30)
  IN Clause("shape", Len(ab) = 2)
     \cup (IF Len(ab) # 2 THEN {} ELSE
       Clause("initial_value", RNear((ab[1] ** F[1][1]) ++ (ab[2] ** F[1][2]), R(e.y), tol))
       \cup Clause("initial_slope", RNear((ab[1] ** F[2][1]) ++ (ab[2] ** F[2][2]), R(e.v), tol)))
\* exponents: nu.re, nu.im; complex: returned as a complex number; warned
ExponentVerdict(e) ==
  LET a == R(e.a) q == R(e.q)
      M == TLCEval(Phi(Series(a, q), RPi))
      c == M[1][1]
      x == RPi ** R(e.nu.re) y == RPi ** R(e.nu.im)
      aq == RMax(RAbs(a), R("0.01")) q4 == RPow(q, 4)
      tol == CASE e.method = "det" -> R("1e-11") ++ R(e.acc)
               [] e.method = "ivp" -> R("5e-3")
               [] e.method = "d0ap" -> R("1e-11") ++ (RI(12) ** (q4 ** (aq ++ (q ** q))))
               [] e.method = "bla" -> RI(3) ** (((q ** q) ++ aq) ** ((q ** q) ++ aq))
  IN IF RLt(RAbs(c), ROne)
     THEN Clause("announced_wrongly", ~e.complex /\ ~e.warned)
          \cup Clause("exponent", ~e.complex => RNear(RCos(x), c, tol))
          \cup Clause("range", ~e.complex => RLe(RZero, R(e.nu.re)) /\ RLe(R(e.nu.re), ROne))
     ELSE Clause("not_announced", e.complex /\ e.warned)
          \* here mu = i nu is returned: cosh(pi mu) = y1(pi), up to the accuracy of the method
          \cup Clause("growth", e.complex => RNear(RAbs(((RExp(x) ++ RExp(RNeg(x))) // RI(2)) ** RCos(y)), RAbs(c), RMax(ROne, RAbs(c)) ** (IF e.method = "ivp" THEN RI(8) ** tol ELSE tol)))
Verdict(e) ==
  Clause("exception_" \o e.exc, e.exc = "no")
  \cup (IF e.exc # "no" THEN {} ELSE
        CASE e.kind = "solution" -> SolVerdict(e)
          [] e.kind = "initial" -> InitVerdict(e)
          [] e.kind = "exponent" -> ExponentVerdict(e)
          [] e.kind = "mode" -> Clause("invalid_mode_accepted", e.refused))
Init == sc \in 1..TraceLen /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED sc /\ Report(sc, 1, Verdict(Trace[sc]))
Spec == Init /\ [][Next]_<<sc, k>>
=============================================================================
