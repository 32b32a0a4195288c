----------------------------- MODULE MathieuEq -----------------------------
(***************************************************************************)
(* Mathieu's equation y'' + (a - 2 q cos 2t) y = 0.  Its fundamental       *)
(* solutions are specified by Taylor series on the panels of [0, pi] and continued *)
(* to all times with the monodromy matrix; all derivatives follow from the *)
(* equation by Leibniz' rule.  cos(pi nu) = y1(pi) is the characteristic   *)
(* exponent's definition.                                                  *)
(***************************************************************************)
EXTENDS Num, TLC, SequencesExt

Terms == 30
Panels == 8
\* strict iteration: op(...op(op(x, 1), 2)..., n)
Iterate(op(_, _), x, n) == FoldLeft(op, x, TLCEval([i \in 1..n |-> i]))
Facs(n) == Iterate(LAMBDA p, i : TLCEval(Append(p, p[i] ** RI(i))), <<ROne>>, n)
FacTable == TLCEval(Facs(Terms + 12))
\* f[k + 1]: k-th Taylor coefficient of a - 2 q cos 2t at t0
ForceCoef(a, q, t0) == TLCEval([i \in 1..(Terms + 1) |->
   LET k == i - 1 c == RNeg((RI(2) ** q) ** ((RPow(RI(2), k) ** RCos((RI(2) ** t0) ++ (RFrac(k, 2) ** RPi))) // FacTable[k + 1]))
   IN IF k = 0 THEN a ++ c ELSE c])
\* Taylor coefficients s[n + 1], n = 0..Terms, of a solution, from the first two
Grow(s0, f) == Iterate(LAMBDA s, i :
   TLCEval(Append(s, RNeg(RSum([k \in 1..i |-> f[k] ** s[i - k + 1]])) // RI((i + 1) * i))), s0, Terms - 1)
\* both solutions, expanded at the left ends of the panels of [0, pi]
Series(a, q) == TLCEval([p \in 1..Panels |->
   LET f == TLCEval(ForceCoef(a, q, RFrac(p - 1, Panels) ** RPi)) IN <<Grow(<<ROne, RZero>>, f), Grow(<<RZero, ROne>>, f)>>])
Powers(t, n) == Iterate(LAMBDA p, i : TLCEval(Append(p, p[i] ** t)), <<ROne>>, n)
\* <<value, slope>> of a series
SeriesAt(s, p) == TLCEval(<<RDot(s, p), RSum([n \in 1..Terms |-> RI(n) ** (s[n + 1] ** p[n])])>>)
MM2(x, y) == TLCEval([i \in 1..2 |-> [j \in 1..2 |-> (x[i][1] ** y[1][j]) ++ (x[i][2] ** y[2][j])]])
PanelAt(ser, h) == LET p == TLCEval(Powers(h, Terms)) u == SeriesAt(ser[1], p) v == SeriesAt(ser[2], p)
                   IN  TLCEval(<<<<u[1], v[1]>>, <<u[2], v[2]>>>>)
Inv2(x) == TLCEval(<<<<x[2][2], RNeg(x[1][2])>>, <<RNeg(x[2][1]), x[1][1]>>>>)       \* determinant 1
\* the fundamental matrix [[y1, y2], [y1', y2']] at t in [0, pi]
Unit2 == <<<<ROne, RZero>>, <<RZero, ROne>>>>
\* full: the propagators over the full panels, the last one over the rest
Phi(ser, t) ==
  LET w == TLCEval(RPi // RI(Panels))
      n == TLCEval(LET q == RFloor(t // w) IN IF q >= Panels THEN Panels - 1 ELSE q)
      part == TLCEval(PanelAt(ser[n + 1], t -- (RI(n) ** w)))
      full == Iterate(LAMBDA acc, i : TLCEval(MM2(PanelAt(ser[i], w), acc)), Unit2, n)
  IN  MM2(part, TLCEval(full))
\* by repeated squaring: the binary digits of k, the highest first
Digits(k) == TLCEval(LET RECURSIVE D(_) D(n) == IF n = 0 THEN <<>> ELSE Append(D(n \div 2), n % 2) IN D(k))
MPow(m, k) == FoldLeft(LAMBDA acc, d : TLCEval(IF d = 0 THEN MM2(acc, acc) ELSE MM2(m, TLCEval(MM2(acc, acc)))), Unit2, Digits(k))
\* the fundamental matrix at any time
Fund(ser, t) ==
  LET k == RFloor(t // RPi)
      m == TLCEval(Phi(ser, RPi))
      s == TLCEval(t -- (RI(k) ** RPi))
      b == TLCEval(IF k >= 0 THEN m ELSE Inv2(m))
      u == Phi(ser, s) v == TLCEval(MPow(b, IF k >= 0 THEN k ELSE -k))
  IN  MM2(u, v)
Binom2(n, k) == FacTable[n + 1] // (FacTable[k + 1] ** FacTable[n - k + 1])
\* derivatives 0..n of the solution with value y and slope v at t
Derivs(d0, a, q, t, n) ==
  LET f == TLCEval([k \in 0..(IF n < 2 THEN 0 ELSE n - 2) |-> IF k = 0 THEN a -- ((RI(2) ** q) ** RCos(RI(2) ** t))
              ELSE RNeg((RI(2) ** q) ** (RPow(RI(2), k) ** RCos((RI(2) ** t) ++ (RFrac(k, 2) ** RPi))))])
  IN  Iterate(LAMBDA d, i : TLCEval(Append(d, RNeg(RSum([k \in 1..i |-> Binom2(i - 1, k - 1) ** (f[k - 1] ** d[i - k + 1])])))),
              d0, IF n < 2 THEN 0 ELSE n - 1)
=============================================================================
