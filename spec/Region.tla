------------------------------- MODULE Region -------------------------------
(***************************************************************************)
(* Plane regions bounded by rings.  A polygon is a record [ext, ints] of   *)
(* closed rings (sequences of points), a multipolygon a sequence of        *)
(* polygons.  Everything is decided by membership of points: a point is    *)
(* inside a ring iff the ray to the right of it crosses the ring an odd    *)
(* number of times; the winding number counts the crossings with sign.     *)
(***************************************************************************)
EXTENDS Num, TLC, FiniteSets, SequencesExt

Pt(p) == <<R(p[1]), R(p[2])>>
Ring(r) == TLCEval([i \in 1..Len(r) |-> TLCEval(Pt(r[i]))])
Poly(p) == TLCEval([ext |-> Ring(p.ext), ints |-> [i \in 1..Len(p.ints) |-> Ring(p.ints[i])]])
Parts(ps) == TLCEval([i \in 1..Len(ps) |-> Poly(ps[i])])
Nxt(r, i) == r[(i % Len(r)) + 1]
Idx(s) == [i \in 1..Len(s) |-> i]
\* signed crossing of the ray to the right of p by ab: +1 upwards, -1 downwards
Crossing(p, a, b) ==
  LET ua == RLt(p[2], a[2]) ub == RLt(p[2], b[2]) IN
  IF ua = ub THEN 0
  ELSE LET d == b[2] -- a[2]
           \* d times (x of the edge at the height of p, relative to p)
           s == ((a[1] -- p[1]) ** d) ++ ((p[2] -- a[2]) ** (b[1] -- a[1]))
           right == IF ub THEN RLt(RZero, s) ELSE RLt(s, RZero)
       IN  IF ~right THEN 0 ELSE IF ub THEN 1 ELSE -1
Wind(p, r) == FoldLeft(LAMBDA a, i : a + Crossing(p, r[i], Nxt(r, i)), 0, Idx(r))
InRing(p, r) == Wind(p, r) % 2 # 0
InPoly(p, q) == InRing(p, q.ext) /\ \A i \in 1..Len(q.ints) : ~InRing(p, q.ints[i])
InParts(p, ps) == \E i \in 1..Len(ps) : InPoly(p, ps[i])
\* in how many of the parts
Cover(p, ps) == Cardinality({i \in 1..Len(ps) : InPoly(p, ps[i])})
\* twice the signed area of a ring
Area2(r) == RSum([i \in 1..Len(r) |-> (r[i][1] ** Nxt(r, i)[2]) -- (Nxt(r, i)[1] ** r[i][2])])
SamePt(a, b) == REq(a[1], b[1]) /\ REq(a[2], b[2])
Repeats(r) == Len(r) > 1 /\ SamePt(r[1], r[Len(r)])
\* distances squared
Cross2(a, b, p) == ((b[1] -- a[1]) ** (p[2] -- a[2])) -- ((b[2] -- a[2]) ** (p[1] -- a[1]))
D2(a, b) == ((b[1] -- a[1]) ** (b[1] -- a[1])) ++ ((b[2] -- a[2]) ** (b[2] -- a[2]))
Along(p, a, b) == ((p[1] -- a[1]) ** (b[1] -- a[1])) ++ ((p[2] -- a[2]) ** (b[2] -- a[2]))
SegD2(p, a, b) ==
  LET l == D2(a, b) t == Along(p, a, b) c == Cross2(a, b, p)
  IN IF RLe(l, RZero) \/ RLe(t, RZero) THEN D2(a, p)
     ELSE IF RLe(l, t) THEN D2(b, p) ELSE (c ** c) // l
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
Inf == R("1e300")
RingD2(p, r) == FoldLeft(LAMBDA m, i : RMin(m, SegD2(p, r[i], Nxt(r, i))), Inf, Idx(r))
\* to the sides whose interior is next to p, ends excluded
SideD2(p, r) == FoldLeft(LAMBDA m, i :
   LET a == r[i] b == Nxt(r, i) l == D2(a, b) t == Along(p, a, b) c == Cross2(a, b, p)
   IN IF RLt(RZero, t) /\ RLt(t, l) THEN RMin(m, (c ** c) // l) ELSE m, Inf, Idx(r))
AllRings(ps) == TLCEval(FoldLeft(LAMBDA s, q : s \o <<q.ext>> \o q.ints, <<>>, ps))
BoundaryD2(p, ps) == FoldLeft(LAMBDA m, r : RMin(m, RingD2(p, r)), Inf, AllRings(ps))
BoundarySideD2(p, ps) == FoldLeft(LAMBDA m, r : RMin(m, SideD2(p, r)), Inf, AllRings(ps))
Touches(p, ps) == InParts(p, ps) \/ (ps # <<>> /\ RLe(BoundaryD2(p, ps), RZero))
\* ---- validity -----------------------------------------------------------------
Undup(r) == LET f == FoldLeft(LAMBDA s, p : IF s # <<>> /\ SamePt(s[Len(s)], p) THEN s ELSE Append(s, p), <<>>, r) IN
            TLCEval(IF Len(f) > 1 /\ SamePt(f[1], f[Len(f)]) THEN SubSeq(f, 1, Len(f) - 1) ELSE f)
Sgn(x) == IF RLt(RZero, x) THEN 1 ELSE IF RLt(x, RZero) THEN -1 ELSE 0
OnSeg(p, a, b) == /\ Sgn(Cross2(a, b, p)) = 0
                  /\ RLe(((p[1] -- a[1]) ** (p[1] -- b[1])) ++ ((p[2] -- a[2]) ** (p[2] -- b[2])), RZero)
\* the closed segments ab and cd share a point
Meet(a, b, c, d) ==
  \/ /\ Sgn(Cross2(a, b, c)) * Sgn(Cross2(a, b, d)) < 0
     /\ Sgn(Cross2(c, d, a)) * Sgn(Cross2(c, d, b)) < 0
  \/ OnSeg(c, a, b) \/ OnSeg(d, a, b) \/ OnSeg(a, c, d) \/ OnSeg(b, c, d)
\* ab, bc fold back
Folds(a, b, c) == Sgn(Cross2(a, b, c)) = 0 /\ RLt(RZero, ((a[1] -- b[1]) ** (c[1] -- b[1])) ++ ((a[2] -- b[2]) ** (c[2] -- b[2])))
SimpleRing(s) ==
  LET r == Undup(s) n == Len(r) IN
  /\ n >= 3
  /\ \A i \in 1..n : ~Folds(r[i], Nxt(r, i), Nxt(r, (i % n) + 1))
  /\ \A i \in 1..n : \A j \in (i + 2)..n : (i = 1 /\ j = n) \/ ~Meet(r[i], Nxt(r, i), r[j], Nxt(r, j))
Apart(r, s) == \A i \in 1..Len(r) : \A j \in 1..Len(s) : ~Meet(r[i], Nxt(r, i), s[j], Nxt(s, j))
\* for rings that never just touch
ValidPoly(q) ==
  /\ SimpleRing(q.ext) /\ \A i \in 1..Len(q.ints) : SimpleRing(q.ints[i])
  /\ \A i \in 1..Len(q.ints) : Apart(q.ints[i], q.ext) /\ InRing(q.ints[i][1], q.ext)
  /\ \A i, j \in 1..Len(q.ints) : i # j => Apart(q.ints[i], q.ints[j]) /\ ~InRing(q.ints[i][1], q.ints[j])
ValidParts(ps) ==
  /\ \A i \in 1..Len(ps) : ValidPoly(ps[i])
  /\ \A i, j \in 1..Len(ps) : i # j => /\ ~InPoly(ps[i].ext[1], ps[j])
                                        /\ \A r \in ToSet(AllRings(<<ps[i]>>)) : \A s \in ToSet(AllRings(<<ps[j]>>)) : Apart(r, s)
\* all vertices on the lattice of pitch 1, all sides along it
Whole(x, tol) == RNear(x, RI(RFloor(x ++ RFrac(1, 2))), tol)
RingOnLattice(r, tol) ==
  \A i \in 1..Len(r) : /\ Whole(r[i][1], tol) /\ Whole(r[i][2], tol)
                       /\ \/ RNear(r[i][1], Nxt(r, i)[1], tol ** RI(2))
                          \/ RNear(r[i][2], Nxt(r, i)[2], tol ** RI(2))
OnLattice(ps, tol) == \A i \in 1..Len(AllRings(ps)) : RingOnLattice(AllRings(ps)[i], tol)
=============================================================================
