----------------------------- MODULE GeomTrace -----------------------------
(* Area and centroid (P17), grouping by voltage (P18). *)
EXTENDS Num, TraceIn, FiniteSets
VARIABLES sc, k

TwoD(p) == [i \in 1..Len(p) |-> RSeq(p[i])]
\* A polygon is the signed sum of the triangles spanned by the point o and its
\* edges.
Cross2(o, a, b) == ((a[1] -- o[1]) ** (b[2] -- o[2])) -- ((b[1] -- o[1]) ** (a[2] -- o[2]))
Nxt(lp, i) == lp[(i % Len(lp)) + 1]
Area(lp) == RSum([i \in 1..Len(lp) |-> Cross2(lp[1], lp[i], Nxt(lp, i))]) // RI(2)
Centroid(lp) == LET A == Area(lp) IN [c \in 1..2 |->
   RSum([i \in 1..Len(lp) |-> (Cross2(lp[1], lp[i], Nxt(lp, i)) // RI(2)) ** ((lp[1][c] ++ (lp[i][c] ++ Nxt(lp, i)[c])) // RI(3))]) // A]
Ext(lp) == RMaxAbs([i \in 1..(2 * Len(lp)) |-> lp[((i - 1) \div 2) + 1][((i - 1) % 2) + 1]])

AreaVerdict(e) ==
  LET lp == TwoD(e.path) s == Ext(lp) ar == Area(lp) c == Centroid(lp)
      t == R("1e-13") ** RI(Len(lp)) ** s ** s
      tc == (t // RAbs(ar)) ** s ** RI(3)
      d == RSeq(e.shift)
  IN Clause("area", RNear(R(e.a), ar, t))
     \cup Clause("centroid", Len(e.c) = 2 /\ \A q \in 1..2 : RNear(R(e.c[q]), c[q], tc))
     \cup Clause("start", RNear(R(e.rolled.a), ar, t) /\ \A q \in 1..2 : RNear(R(e.rolled.c[q]), c[q], tc))
     \cup Clause("sense", RNear(R(e.reversed.a), RNeg(ar), t) /\ \A q \in 1..2 : RNear(R(e.reversed.c[q]), c[q], tc))
     \cup (LET s2 == s ++ RMaxAbs(d) t2 == R("1e-13") ** RI(Len(lp)) ** s2 ** s2 IN
           Clause("translate", RNear(R(e.moved.a), ar, t2) /\ \A q \in 1..2 :
              RNear(R(e.moved.c[q]), c[q] ++ d[q], (t2 // RAbs(ar)) ** s2 ** RI(3))))
     \cup Clause("input_changed", ~e.changed)
Sign(x) == IF RLt(x, RZero) THEN -1 ELSE IF RLt(RZero, x) THEN 1 ELSE 0
OrientVerdict(e) == Clause("orientations", Len(e.got) = Len(e.paths) /\
    \A i \in 1..Len(e.paths) : R(e.got[i]) = RI(Sign(Area(TwoD(e.paths[i])))))

\* ---- P18 ---------------------------------------------------------------------
\* e.t thresholds, e.v voltages binned by, e.dc, e.rf, e.paths[electrode],
\* e.units[electrode]; result: e.gdc, e.grf, e.gpaths[group], e.gunits[group]
Members(e, i) ==
  {j \in 1..Len(e.v) : /\ (i = 1 \/ RLe(R(e.t[i - 1]), R(e.v[j])))
                       /\ (i = Len(e.t) + 1 \/ RLt(R(e.v[j]), R(e.t[i])))}
RECURSIVE Bag(_, _)
\* how often path p occurs in the sequence s
Bag(s, p) == IF s = <<>> THEN 0 ELSE (IF Head(s) = p THEN 1 ELSE 0) + Bag(Tail(s), p)
RECURSIVE CatOver(_, _)
CatOver(f, S) == IF S = {} THEN <<>> ELSE LET j == CHOOSE j \in S : \A i \in S : j <= i IN f[j] \o CatOver(f, S \ {j})
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN RZero ELSE LET j == CHOOSE j \in S : TRUE IN R(f[j]) ++ SumOver(f, S \ {j})
AbsOver(f, S) == RSum([j \in 1..Len(f) |-> IF j \in S THEN RAbs(R(f[j])) ELSE RZero])
GroupVerdict(e) ==
  LET n == Len(e.t) + 1 IN
  Clause("number_of_groups", Len(e.gpaths) = n)
  \cup (IF Len(e.gpaths) # n THEN {} ELSE
   UNION {LET M == Members(e, i)
              want == CatOver(e.paths, M)
              nc == Len(e.gunits[i])
          IN Clause("paths", Len(want) = Len(e.gpaths[i]) /\ \A q \in 1..Len(want) : Bag(want, want[q]) = Bag(e.gpaths[i], want[q]))
             \cup Clause("unit_response", \A c \in 1..nc : LET col == [j \in 1..Len(e.units) |-> e.units[j][c]] IN
                   RNear(R(e.gunits[i][c]), SumOver(col, M), R("1e-11") ** (R("1e-3") ++ AbsOver(col, M))))
             \cup (IF M = {} THEN Clause("empty_group", RFin(R(e.gdc[i])) /\ RFin(R(e.grf[i]))) ELSE
                   LET m == RI(Cardinality(M)) IN
                   Clause("dc_mean", RNear(R(e.gdc[i]), SumOver(e.dc, M) // m, R("1e-13") ** (ROne ++ AbsOver(e.dc, M))))
                   \cup Clause("rf_mean", RNear(R(e.grf[i]), SumOver(e.rf, M) // m, R("1e-13") ** (ROne ++ AbsOver(e.rf, M)))))
          : i \in 1..n})
  \cup Clause("system_changed", ~e.changed)

Verdict(e) ==
  Clause("exception_" \o e.exc, e.exc = "no")
  \cup (IF e.exc # "no" THEN {} ELSE
        CASE e.kind = "area" -> AreaVerdict(e)
          [] e.kind = "orient" -> OrientVerdict(e)
          [] e.kind = "group" -> GroupVerdict(e))
Init == sc \in 1..TraceLen /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED sc /\ Report(sc, 1, Verdict(Trace[sc]))
Spec == Init /\ [][Next]_<<sc, k>>
=============================================================================
