------------------------------ MODULE OptTrace ------------------------------
(***************************************************************************)
(* Optimisation of voltages: P19 (optimize), P20 (shims), P21 (rows and    *)
(* bounds), P22 (solve).                                                   *)
(***************************************************************************)
EXTENDS Linear, TraceIn
VARIABLES sc, k

NonNeg(s) == \A i \in 1..Len(s) : RLe(R("-1e-9"), s[i])
Comb(w, rows, j) == RSum([i \in 1..Len(rows) |-> w[i] ** rows[i][j]])
CombR(w, rs, j) == RSum([i \in 1..Len(rs) |-> w[i] ** rs[i].a[j]])
DotB(w, rs) == RSum([i \in 1..Len(rs) |-> w[i] ** rs[i].b])
L1(s) == RSum([i \in 1..Len(s) |-> RAbs(s[i])])

\* ---- P21 ---------------------------------------------------------------------
RowVerdict(e) ==
  LET r == Row(e.els, e.obj) g == RSeq(e.got) IN
  Clause("row", Len(g) = Len(r) /\ \A j \in 1..Len(r) : RNear(g[j], r[j], R("1e-11") ** RowMag(e.els, e.obj)))
  \cup Clause("objective", IF e.value = "None" THEN e.terms = <<>>
       ELSE /\ Len(e.terms) = 1 /\ R(e.terms[1].value) = R(e.value)
            /\ Len(e.terms[1].row) = Len(r)
            /\ \A j \in 1..Len(r) : RNear(R(e.terms[1].row[j]), r[j], R("1e-11") ** RowMag(e.els, e.obj)))
\* e.tests: voltage vectors with e.ok, whether the constraints the code yields
\* hold there (with a margin of 1e-7, vectors near a boundary are not judged)
BoundVerdict(e) ==
  LET iq == Ineqs(e.els, e.c) eq == Eqs(e.els, e.c)
      far(u) == /\ \A i \in 1..Len(iq) : RLt(R("1e-4"), RAbs(RDot(iq[i].a, u) -- iq[i].b))
                /\ \A i \in 1..Len(eq) : LET d == RAbs(RDot(eq[i].a, u) -- eq[i].b) IN RLt(R("1e-4"), d) \/ RLt(d, R("1e-8"))
      ok(u) == Holds(e.els, e.c, u, R("1e-8"))
  IN UNION {LET u == RSeq(e.tests[q]) IN Clause("bounds", far(u) => (e.ok[q] = ok(u))) : q \in 1..Len(e.tests)}

\* ---- P19 ---------------------------------------------------------------------
\* e.objs: [obj, value]; e.cs: constraints; e.p, e.c result; e.cert
OptVerdict(e) ==
  LET m == Len(e.els)
      n == Len(e.objs)
      B == TLCEval([i \in 1..n |-> Row(e.els, e.objs[i].obj)])
      b == TLCEval([i \in 1..n |-> R(e.objs[i].value)])
      iq == AllIneqs(e.els, e.cs)
      eq == AllEqs(e.els, e.cs)
      lam == RSeq(e.cert.lam) mu == RSeq(e.cert.mu) y == RSeq(e.cert.y)
      mag == RMaxAbs(CatAll(B))
      stat == \A j \in 1..m : RNear(Comb(y, B, j) ++ (CombR(lam, iq, j) ++ CombR(mu, eq, j)), RZero,
                  R("1e-8") ** (ROne ++ (mag ** L1(y)) ++ L1(lam) ++ (mag ** L1(mu))))
      sizes == Len(lam) = Len(iq) /\ Len(mu) = Len(eq) /\ Len(y) = n
      by == RDot(b, y)
      bound == DotB(lam, iq) ++ DotB(mu, eq)
      small == IF RLt(mag, ROne) THEN mag ELSE ROne
      tolc == R("1e-4") ** (small ++ RAbs(bound))
      \* proofs
      Optimal == sizes /\ NonNeg(lam) /\ stat /\ RNear(by, RI(-1), R("1e-9"))
      Infeasible == sizes /\ NonNeg(lam) /\ stat /\ RNear(by, RZero, R("1e-9")) /\ RLt(bound, R("-1e-4"))
      Contradictory == Len(y) = n /\ (\A j \in 1..m : RNear(Comb(y, B, j), RZero, R("1e-9") ** (ROne ++ mag ** L1(y)))) /\ RLt(R("1e-4"), RAbs(by))
      d == RSeq(e.cert.ray)
      g == R(e.cert.gain)
      Unbounded == /\ Len(d) = m /\ RLt(R("1e-3"), g)
                   /\ \A i \in 1..n : RNear(RDot(B[i], d), b[i] ** g, R("1e-8") ** (ROne ++ mag ** L1(d)))
                   /\ \A i \in 1..Len(iq) : RLe(RDot(iq[i].a, d), R("1e-9"))
                   /\ \A i \in 1..Len(eq) : RNear(RDot(eq[i].a, d), RZero, R("1e-8") ** (ROne ++ L1(d)))
  IN IF e.exc # "no" THEN
       Clause("error_without_reason", CASE e.cert.kind = "infeasible" -> Infeasible
            [] e.cert.kind = "contradictory" -> Contradictory
            [] e.cert.kind = "unbounded" -> Unbounded
            [] OTHER -> FALSE)
     ELSE IF e.cert.kind # "optimal" THEN {"impossible_problem_answered"}
     ELSE LET p == RSeq(e.p) c == R(e.c) s == mag ** (ROne ++ L1(p)) IN
       Clause("length", Len(p) = m)
       \cup (IF Len(p) # m THEN {} ELSE
         Clause("constraints", \A i \in 1..Len(e.cs) : Holds(e.els, e.cs[i], p, R("1e-6") ** (ROne ++ s)))
         \cup Clause("proportional", \A i \in 1..n : RNear(RDot(B[i], p), c ** b[i], R("1e-6") ** (small ++ s)))
         \* what has to vanish does so by its own measure
         \cup Clause("vanishing", \A i \in 1..n : REq(b[i], RZero) => RNear(RDot(B[i], p), RZero, R("1e-5") ** (RMaxAbs(B[i]) ** (ROne ++ L1(p)))))
         \cup Clause("certificate_invalid", Optimal)
         \cup Clause("maximal", RLe(bound -- tolc, c)))
       \cup Clause("system_changed", ~e.changed)

\* ---- P20 ---------------------------------------------------------------------
Span(B, y, lo, hi) == RSum([j \in 1..Len(lo) |-> LET z == Comb(y, B, j) IN RMax(z ** lo[j], z ** hi[j])])
ShimVerdict(e) ==
  LET n == Len(e.objs)
      B == TLCEval([i \in 1..n |-> Row(e.els, e.objs[i])])
      mag == RMaxAbs(CatAll(B)) IN
  Clause("number", Len(e.vectors) = n)
  \cup (IF Len(e.vectors) # n THEN {} ELSE
    UNION {LET v == RSeq(e.vectors[i]) IN
      Clause("dual", Len(v) = Len(e.els) /\ \A q \in 1..n : RNear(RDot(B[q], v), IF q = i THEN ROne ELSE RZero,
            R("1e-6") ** (ROne ++ (mag ** L1(v))))) : i \in 1..n})
  \* within the constraints lo, hi (around 0) the largest multiple is used: the
  \* vector takes the smallest share g of the ranges.  Proof: weights y with
  \* sum_j max(z_j lo_j, z_j hi_j) <= 1, z = B' y, show g >= y[i].
  \cup (IF Len(e.vectors) # n \/ \E i \in 1..n : Len(e.vectors[i]) # Len(e.els) THEN {} ELSE
    UNION {LET v == RSeq(e.vectors[i]) y == RSeq(e.certs[i]) lo == RSeq(e.lo) hi == RSeq(e.hi) m == Len(lo)
               share == Span(B, y, lo, hi)
               t == R("1e-6") ** (ROne ++ RMaxAbs(v))
               \* the share of the vector, given in units of y[i]
               g == y[i] ** R("1.001")
               fits == \A j \in 1..m : RLe(v[j], (g ** hi[j]) ++ t) /\ RLe((g ** lo[j]) -- t, v[j])
           IN Clause("certificate_invalid", RLe(share, R("1.000001")) /\ RLt(RZero, y[i]))
              \cup Clause("constraints", fits) : i \in 1..n})
  \cup Clause("system_changed", ~e.changed)
  \cup Clause("objectives_changed", e.values = e.values0)
ImpossibleVerdict(e) ==
  LET n == Len(e.objs) B == TLCEval([i \in 1..n |-> Row(e.els, e.objs[i])])
      y == RSeq(e.certs[1][2])
  IN Clause("impossible_shim_answered", e.raised # "no")
     \cup Clause("certificate_invalid", RLt(R("1e-4"), y[e.certs[1][1]]) /\ RLe(Span(B, y, RSeq(e.lo), RSeq(e.hi)), R("1e-8")))
RefusedVerdict(e) == Clause("refused", e.raised # "no")

\* ---- P22 ---------------------------------------------------------------------
\* e.local[n]: [cs, objs: seq of [obj, value]], e.global: seq of
\* [order, delta, smooth, abs, norm, weight, max, min].
\* A difference is a coefficient vector over the configurations.
DiffForms(N, g) ==
  LET Unit(q) == [i \in 1..N |-> IF i = q THEN ROne ELSE RZero]
      Sub(a, b) == [i \in 1..N |-> a[i] -- b[i]]
      Pad(s) == [i \in 1..g.delta |-> s[g.delta + 2 - i]] \o s \o [i \in 1..g.delta |-> s[Len(s) - i]]
      RECURSIVE Go(_, _)
      Go(s, i) == IF i = g.order THEN s
                  ELSE LET t == IF g.smooth /\ i % 2 = 0 THEN Pad(s) ELSE s IN
                       Go([q \in 1..(Len(t) - g.delta) |-> Sub(t[q + g.delta], t[q])], i + 1)
      s0 == Go([q \in 1..N |-> Unit(q)], 0)
      f == ROne // RPow(RI(g.delta), g.order)
  IN  TLCEval([q \in 1..Len(s0) |-> [i \in 1..N |-> f ** s0[q][i]]])
FormAt(f, u, j) == RSum([i \in 1..Len(f) |-> f[i] ** u[i][j]])
RECURSIVE MaxOf(_)
MaxOf(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], MaxOf(Tail(s)))
NormOf(g, v) == LET w == [j \in 1..Len(v) |-> IF g.abs THEN RAbs(v[j]) ELSE v[j]] IN
                IF g.norm = "one" THEN RSum(w) ELSE MaxOf(w)
\* s is a subgradient of lam * norm
DualOk(g, s, lam) ==
  LET eps == R("1e-9") IN
  /\ RLe(RNeg(eps), lam)
  /\ CASE g.abs /\ g.norm = "one" -> \A j \in 1..Len(s) : RLe(RAbs(s[j]), lam ++ eps)
       [] g.abs /\ g.norm = "inf" -> RLe(L1(s), lam ++ eps)
       [] ~g.abs /\ g.norm = "one" -> \A j \in 1..Len(s) : RNear(s[j], lam, eps)
       [] ~g.abs /\ g.norm = "inf" -> (\A j \in 1..Len(s) : RLe(RNeg(eps), s[j])) /\ RNear(RSum(s), lam, eps)
Holding(e, u, tol) ==
  LET N == Len(e.local) m == Len(e.els) IN
  /\ \A n \in 1..N : \A i \in 1..Len(e.local[n].cs) : Holds(e.els, e.local[n].cs[i], u[n], tol)
  /\ \A q \in 1..Len(e.global) : LET g == e.global[q] fs == DiffForms(N, g) IN
       \A f \in 1..Len(fs) : LET v == NormOf(g, [j \in 1..m |-> FormAt(fs[f], u, j)]) IN
          (g.max # "None" => RLe(v, R(g.max) ++ tol)) /\ (g.min # "None" => RLe(R(g.min) -- tol, v))
SolveVerdict(e) ==
  LET N == Len(e.local) m == Len(e.els) IN
  IF e.exc # "no" THEN Clause("exception_" \o e.exc, FALSE)
  ELSE IF Len(e.u) # N \/ (\E n \in 1..N : Len(e.u[n]) # m) THEN {"shape"}
  ELSE
  LET u == TLCEval([n \in 1..N |-> RSeq(e.u[n])])
      Forms == TLCEval([q \in 1..Len(e.global) |-> DiffForms(N, e.global[q])])
      lin == TLCEval([n \in 1..N |-> LET os == e.local[n].objs rows == [i \in 1..Len(os) |-> Row(e.els, os[i].obj)] IN
               [j \in 1..m |-> RSum([i \in 1..Len(os) |-> R(os[i].value) ** rows[i][j]])]])
      Value == RSum([n \in 1..N |-> RDot(lin[n], u[n])] \o
               CatAll([q \in 1..Len(e.global) |-> LET g == e.global[q] fs == Forms[q] IN
                  [f \in 1..Len(fs) |-> R(g.weight) ** NormOf(g, [j \in 1..m |-> FormAt(fs[f], u, j)])]]))
      \* certificate: lam[n], mu[n] of the local rows; s[q][f], t[q][f], tl[q][f], tm[q][f]
      iq == TLCEval([n \in 1..N |-> AllIneqs(e.els, e.local[n].cs)])
      eq == TLCEval([n \in 1..N |-> AllEqs(e.els, e.local[n].cs)])
      lam == TLCEval([n \in 1..N |-> RSeq(e.cert.lam[n])])
      mu == TLCEval([n \in 1..N |-> RSeq(e.cert.mu[n])])
      Stat(n, j) == RSum(<<lin[n][j], CombR(lam[n], iq[n], j), CombR(mu[n], eq[n], j)>> \o
           CatAll([q \in 1..Len(e.global) |-> [f \in 1..Len(Forms[q]) |->
               Forms[q][f][n] ** (R(e.cert.s[q][f][j]) ++ (R(e.cert.t[q][f][j]) -- R(e.cert.tm[q][f])))]]))
      bound == RNeg(RSum([n \in 1..N |-> DotB(lam[n], iq[n]) ++ DotB(mu[n], eq[n])] \o
           CatAll([q \in 1..Len(e.global) |-> IF e.global[q].max = "None" THEN <<>> ELSE
               [f \in 1..Len(Forms[q]) |-> R(e.cert.tl[q][f]) ** R(e.global[q].max)]]) \o
           CatAll([q \in 1..Len(e.global) |-> IF e.global[q].min = "None" THEN <<>> ELSE
               [f \in 1..Len(Forms[q]) |-> RNeg(R(e.cert.tm[q][f]) ** R(e.global[q].min))]])))
      Cert == /\ \A n \in 1..N : NonNeg(lam[n])
              /\ \A q \in 1..Len(e.global) : \A f \in 1..Len(Forms[q]) :
                   LET g == e.global[q] IN
                   /\ DualOk(g, RSeq(e.cert.s[q][f]), R(g.weight))
                   /\ DualOk(g, RSeq(e.cert.t[q][f]), R(e.cert.tl[q][f]))
                   /\ (g.max = "None" => REq(R(e.cert.tl[q][f]), RZero))
                   \* only sums of the differences themselves are bounded from below
                   /\ RLe(RNeg(R("1e-9")), R(e.cert.tm[q][f]))
                   /\ (g.min = "None" \/ g.abs \/ g.norm # "one" => REq(R(e.cert.tm[q][f]), RZero))
              /\ \A n \in 1..N : \A j \in 1..m : RNear(Stat(n, j), RZero, R("1e-7"))
      tol == R("1e-5") ** (ROne ++ RAbs(Value))
  IN Clause("constraints", Holding(e, u, R("1e-5")))
     \cup Clause("value", RNear(R(e.c), Value, tol))
     \cup Clause("certificate_invalid", Cert)
     \cup Clause("minimal", RLe(Value, bound ++ tol))
     \cup Clause("system_changed", ~e.changed)

Verdict(e) ==
  IF e.kind = "optimize" THEN OptVerdict(e)
  ELSE IF e.kind = "solve" THEN SolveVerdict(e)
  ELSE Clause("exception_" \o e.exc, e.exc = "no")
  \cup (IF e.exc # "no" THEN {} ELSE
        CASE e.kind = "row" -> RowVerdict(e)
          [] e.kind = "bounds" -> BoundVerdict(e)
          [] e.kind = "shims" -> ShimVerdict(e)
          \* the interior point solver may fail to converge, but rarely does
          [] e.kind = "converges" -> Clause("solver_fails", e.gave_up * 8 <= e.solvable)
          [] e.kind = "impossible" -> ImpossibleVerdict(e)
          [] e.kind = "refused" -> RefusedVerdict(e))
Init == sc \in 1..TraceLen /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED sc /\ Report(sc, 1, Verdict(Trace[sc]))
Spec == Init /\ [][Next]_<<sc, k>>
=============================================================================
