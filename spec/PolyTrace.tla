----------------------------- MODULE PolyTrace -----------------------------
(* Electrode polygons: conversion (P28), region algebra (P29), gaps and    *)
(* simplification (P30), pads (P31), construction (P32), GDS (P33), the    *)
(* gap network (P34).  Layouts are recorded as rings; the specification    *)
(* decides membership of the sample points and applies RegionOps.          *)
EXTENDS Region, RegionOps, TraceIn
VARIABLES sc, k

Geo(l) == TLCEval([i \in 1..Len(l) |-> Parts(l[i].parts)])
MemOf(gs, l, pts) == TLCEval([i \in 1..Len(l) |-> El(l[i].name, TLCEval([j \in 1..Len(pts) |-> InParts(pts[j], gs[i])]))])
Overlapping(gs, pts) == \E i \in 1..Len(gs) : Len(gs[i]) > 1 /\ \E j \in 1..Len(pts) : Cover(pts[j], gs[i]) > 1
Valid(l) == \A i \in 1..Len(l) : l[i].valid
Pts(e) == TLCEval([j \in 1..Len(e.pts) |-> Pt(e.pts[j])])
LTol == R("2e-9")
Half == RFrac(1, 2)

\* ---- P29 ---------------------------------------------------------------------
RingKept(e, i, m, r) == e.keep[i][m][r]     \* what the test says of ring r (1: outer) of part m
AreaOver(ring, t) == RLt(t, RAbs(Area2(ring)) // RI(2))
PolyArea(q) == (RAbs(Area2(q.ext)) -- RSum([i \in 1..Len(q.ints) |-> RAbs(Area2(q.ints[i]))])) // RI(2)
Wanted(e, gs, B, pts) ==
  CASE e.op = "remove_overlaps" -> RemoveOverlaps(B)
    [] e.op \in {"unify", "zero_gaps", "zero_simplify"} -> Same(B)
    [] e.op = "unify_by_name" -> UnifyByName(B)
    [] e.op = "restrict" -> LET g == Parts(e.window) IN RestrictTo(B, TLCEval([j \in 1..Len(pts) |-> InParts(pts[j], g)]))
    [] e.op = "within" -> LET h == R(e.edge) // RI(2) IN
          RestrictTo(B, TLCEval([j \in 1..Len(pts) |-> RLt(RAbs(pts[j][1]), h) /\ RLt(RAbs(pts[j][2]), h)]))
    [] e.op = "filter" ->
          LET t == R("1e-2")
              keepRing(i, m, r) == LET q == gs[i][m] ring == IF r = 1 THEN q.ext ELSE q.ints[r - 1]
                                   IN IF e.default THEN AreaOver(ring, t) ELSE e.keep[i][m][r]
              keepPart(i, m) == IF e.deep THEN keepRing(i, m, 1)
                                ELSE IF e.default THEN RLt(t, PolyArea(gs[i][m])) ELSE e.keep[i][m][1]
              new(i) == TLCEval([j \in 1..Len(pts) |-> \E m \in 1..Len(gs[i]) : keepPart(i, m) /\
                          IF e.deep THEN /\ InRing(pts[j], gs[i][m].ext)
                                         /\ \A r \in 1..Len(gs[i][m].ints) : keepRing(i, m, r + 1) => ~InRing(pts[j], gs[i][m].ints[r])
                          ELSE InPoly(pts[j], gs[i][m])])
          IN Keep(Each(B, new), {i \in 1..Len(B) : \E m \in 1..Len(gs[i]) : keepPart(i, m)})
OpVerdict(e) ==
  LET pts == Pts(e) gb == Geo(e.before) ga == Geo(e.after)
      B == MemOf(gb, e.before, pts) A0 == MemOf(ga, e.after, pts)
      \* an electrode without area may survive a filter or not
      A == IF e.op = "filter" THEN Keep(A0, {i \in 1..Len(A0) : ga[i] # <<>>}) ELSE A0
      W == TLCEval(Wanted(e, gb, B, pts))
  IN Clause("names", Names(A) = Names(W))
     \cup Clause("regions", Names(A) # Names(W) \/ \A i \in 1..Len(W) : A[i].mem = W[i].mem)
     \cup Clause("valid", Valid(e.after))
     \cup Clause("parts_overlap", ~Overlapping(ga, pts))
     \cup Clause("lattice", e.lattice => \A i \in 1..Len(ga) : OnLattice(ga[i], LTol))
     \cup Clause("input_changed", ~e.changed)
     \cup Clause("type", e.type = "Polygons")

\* ---- P28 ---------------------------------------------------------------------
\* paths: per electrode a list of rings
Turns(p, rs) == FoldLeft(LAMBDA a, r : a + Wind(p, r), 0, rs)
Rings(l) == TLCEval([i \in 1..Len(l) |-> TLCEval([m \in 1..Len(l[i]) |-> Ring(l[i][m])])])
ToSystemVerdict(e) ==
  LET pts == Pts(e) gb == Geo(e.before) B == MemOf(gb, e.before, pts) rs == Rings(e.paths) n == Len(B) IN
  Clause("names", e.names = Names(B))
  \cup (IF Len(rs) # n THEN {"electrodes"} ELSE
     Clause("region", \A i \in 1..n : \A j \in 1..Len(pts) : Turns(pts[j], rs[i]) = (IF B[i].mem[j] THEN 1 ELSE 0))
     \cup Clause("last_point_repeated", \A i \in 1..n : \A m \in 1..Len(rs[i]) : ~Repeats(rs[i][m]))
     \* as many rings as boundaries, outer ones counter clockwise and holes clockwise
     \cup Clause("orientation", \A i \in 1..n :
            LET pos == Cardinality({m \in 1..Len(rs[i]) : RLt(RZero, Area2(rs[i][m]))})
                neg == Cardinality({m \in 1..Len(rs[i]) : RLt(Area2(rs[i][m]), RZero)})
            IN /\ pos = Len(gb[i]) /\ pos + neg = Len(rs[i])
               /\ neg = FoldLeft(LAMBDA a, q : a + Len(q.ints), 0, gb[i]))
     \cup Clause("potential", \A i \in 1..n : e.pot[i] = <<>> \/ \A j \in 1..Len(pts) :
            RNear(R(e.pot[i][j]), IF B[i].mem[j] THEN ROne ELSE RZero, R("0.02")))
     \cup Clause("voltages", e.volts0))
  \cup Clause("input_changed", ~e.changed)
  \* and back: electrodes without any area have no polygon
  \cup (LET gr == Geo(e.back) A == MemOf(gr, e.back, pts) W == Keep(B, {i \in 1..n : gb[i] # <<>>}) IN
        Clause("back_names", Names(A) = Names(W))
        \cup Clause("back_regions", Names(A) # Names(W) \/ \A i \in 1..Len(W) : A[i].mem = W[i].mem))
FromSystemVerdict(e) ==
  LET pts == Pts(e) rs == Rings(e.paths) ga == Geo(e.after) A == MemOf(ga, e.after, pts)
      some(i) == e.polygonal[i] /\ \E m \in 1..Len(rs[i]) : RLt(RZero, Area2(rs[i][m]))
      B == TLCEval([i \in 1..Len(rs) |-> El(e.names[i], TLCEval([j \in 1..Len(pts) |-> Turns(pts[j], rs[i]) = 1]))])
      W == Keep(B, {i \in 1..Len(rs) : some(i)})
  IN Clause("names", Names(A) = Names(W))
     \cup Clause("regions", Names(A) # Names(W) \/ \A i \in 1..Len(W) : A[i].mem = W[i].mem)
     \cup Clause("valid", Valid(e.after))
     \cup Clause("parts_overlap", ~Overlapping(ga, pts))
     \cup Clause("input_changed", ~e.changed)

\* ---- P30 ---------------------------------------------------------------------
\* The library may shift a boundary by a hundredth of the gap; round corners are replaced by at most 135 degree wide chords, cos(67.5)^2 = .1464
GapVerdict(e) ==
  LET pts == Pts(e) gb == Geo(e.before) ga == Geo(e.after)
      h == R(e.g) // RI(2) eps == R("0.011") ** h
      far == TLCEval((h ++ eps) ** (h ++ eps)) near == TLCEval((h -- eps) ** (h -- eps))
      corner == TLCEval((h -- eps) ** (h -- eps) ** R("0.1464"))
      one(i, p) ==
        LET in == InParts(p, gb[i]) out == InParts(p, ga[i])
            d == IF in \/ out THEN BoundaryD2(p, gb[i]) ELSE RZero
        IN Clause("grows", out => in)
           \cup Clause("gap_too_narrow", out => (RLe(corner, d) /\ RLe(near, BoundarySideD2(p, gb[i]))))
           \cup Clause("gap_too_wide", (in /\ RLt(far, d)) => out)
      vert(i) == LET rs == AllRings(ga[i]) IN
        Clause("gap_too_narrow", \A m \in 1..Len(rs) : \A v \in 1..Len(rs[m]) : RLe(corner, BoundaryD2(rs[m][v], gb[i])) /\ RLe(near, BoundarySideD2(rs[m][v], gb[i])))
  IN IF [i \in 1..Len(e.after) |-> e.after[i].name] # [i \in 1..Len(e.before) |-> e.before[i].name] THEN {"names"}
     ELSE UNION {vert(i) : i \in 1..Len(gb)} \cup UNION {one(i, pts[j]) : i \in 1..Len(gb), j \in 1..Len(pts)}
          \cup Clause("valid", Valid(e.after)) \cup Clause("input_changed", ~e.changed) \cup Clause("type", e.type = "Polygons")
\* The simplification of a ring (GEOS) ends with its first vertex, which it
\* may drop in a second pass: up to twice the tolerance on that stretch only.
Moved(r, ra, t2) ==
  LET n == Len(r)
      kept == TLCEval([v \in 1..n |-> \E m \in 1..Len(ra) : \E w \in 1..Len(ra[m]) : SamePt(r[v], ra[m][w])])
      d(v) == FoldLeft(LAMBDA a, q : RMin(a, RingD2(r[v], q)), Inf, ra)
      start(v) == ~kept[1] /\ ((\A w \in 1..v : ~kept[w]) \/ (\A w \in v..n : ~kept[w]))
  IN \E v \in 1..n : ~kept[v] /\ LET x == TLCEval(d(v)) IN ~RLe(x, IF start(v) THEN t2 ** RI(4) ELSE t2)
SimplifyVerdict(e) ==
  LET gb == Geo(e.before) ga == Geo(e.after) t == R(e.tol) ** R("1.0000001") t2 == t ** t IN
  IF [i \in 1..Len(e.after) |-> e.after[i].name] # [i \in 1..Len(e.before) |-> e.before[i].name] THEN {"names"}
  ELSE UNION {LET rb == AllRings(gb[i]) ra == AllRings(ga[i]) IN
         Clause("rings", Len(ra) = Len(rb))
         \cup Clause("new_points", \A m \in 1..Len(ra) : \A v \in 1..Len(ra[m]) :
                \E m2 \in 1..Len(rb) : \E v2 \in 1..Len(rb[m2]) : SamePt(ra[m][v], rb[m2][v2]))
         \cup Clause("moved_too_far", \A m \in 1..Len(rb) : ~Moved(rb[m], ra, t2))
         \cup Clause("not_simplified", e.before[i].wiggles => Len(ra[1]) < Len(rb[1])) : i \in 1..Len(gb)}
       \cup Clause("valid", Valid(e.after)) \cup Clause("input_changed", ~e.changed) \cup Clause("type", e.type = "Polygons")
\* smoothing by nothing keeps every vertex; smoothing by s leaves the boundary
\* near the vertices: the sum of the squared weighted distances of a ring with n
\* vertices is at most s times (n + 1).  Vertices between two sides in the same
\* direction are straight, others next to them corners; both have own weights.
StraightAt(r, i) == LET a == r[((i + Len(r) - 2) % Len(r)) + 1] b == r[i] c == Nxt(r, i) IN
   LET u == <<b[1] -- a[1], b[2] -- a[2]>> v == <<c[1] -- b[1], c[2] -- b[2]>>
       d == (u[1] ** v[1]) ++ (u[2] ** v[2]) IN
   RLt(RZero, d) /\ RLe(RAbs((u[1] ** v[2]) -- (u[2] ** v[1])), R("1e-9") ** d)
Weights(e, r) ==
  LET n == Len(r) st == TLCEval([i \in 1..n |-> StraightAt(r, i)])
      nb(i) == st[(i % n) + 1] \/ st[((i + n - 2) % n) + 1] IN
  TLCEval([i \in 1..n |-> IF st[i] THEN R(e.straight) ELSE IF nb(i) THEN R(e.corner) ELSE ROne])
Misfit(e, rb, ra) ==
  LET w == Weights(e, rb) IN
  RSum([i \in 1..Len(rb) |-> LET d == RMax(RZero, RSqrt(RingD2(rb[i], ra)) -- R(e.slack)) ** w[i] IN d ** d])
SmoothMoreVerdict(e) ==
  LET gb == Geo(e.before) ga == Geo(e.after) IN
  IF [i \in 1..Len(e.after) |-> e.after[i].name] # [i \in 1..Len(e.before) |-> e.before[i].name] THEN {"names"}
  ELSE UNION {LET rb == AllRings(gb[i]) ra == AllRings(ga[i])
                  same == Len(ra) = Len(rb) /\ Len(ga[i]) = Len(gb[i]) IN
         Clause("rings", same)
         \cup (IF ~same THEN {} ELSE UNION {
              Clause("misfit", RLe(Misfit(e, rb[m], ra[m]), R(e.s) ** (RI(Len(rb[m]) + 1) ** R("1.002"))))
              \cup Clause("smoothed", \E v \in 1..Len(rb[m]) : RLt(R("1e-12"), RingD2(rb[m][v], ra[m]))) : m \in 1..Len(rb)}) : i \in 1..Len(gb)}
SmoothVerdict(e) == IF e.s # "0" THEN SmoothMoreVerdict(e) ELSE
  LET gb == Geo(e.before) ga == Geo(e.after)
      near(a, b) == RNear(a[1], b[1], R("1e-9")) /\ RNear(a[2], b[2], R("1e-9")) IN
  IF [i \in 1..Len(e.after) |-> e.after[i].name] # [i \in 1..Len(e.before) |-> e.before[i].name] THEN {"names"}
  ELSE UNION {LET rb == AllRings(gb[i]) ra == AllRings(ga[i]) IN
         Clause("rings", Len(ra) = Len(rb) /\ Len(ga[i]) = Len(gb[i]))
         \cup Clause("vertices", Len(ra) # Len(rb) \/ \A m \in 1..Len(rb) :
              \A v \in 1..Len(rb[m]) : \E w \in 1..Len(ra[m]) : near(rb[m][v], ra[m][w]))
         \cup Clause("moved", Len(ra) # Len(rb) \/ \A m \in 1..Len(rb) :
              \A w \in 1..Len(ra[m]) : RLe(RingD2(ra[m][w], rb[m]), R("1e-16"))) : i \in 1..Len(gb)}

\* ---- P44 ---------------------------------------------------------------------
ValidateVerdict(e) ==
  LET ok == \A i \in 1..Len(e.before) : ValidParts(Parts(e.before[i].parts)) IN
  Clause("accepted_invalid", ok \/ e.raised # "no")
  \cup Clause("refused_valid", ok => e.raised = "no")
  \cup Clause("error", e.raised \in {"no", "ValueError"})
  \cup Clause("input_changed", ~e.changed)
\* ---- P31 ---------------------------------------------------------------------
AssignVerdict(e) ==
  LET g == Geo(e.before) pads == TLCEval([q \in 1..Len(e.pads) |-> Pt(e.pads[q])])
      touch == TLCEval([q \in 1..Len(pads) |-> TLCEval([i \in 1..Len(g) |-> Touches(pads[q], g[i])])])
      got == [m \in 1..Len(e.got) |-> <<e.got[m][1], e.got[m][2]>>]
  IN Clause("assignment", got = Assign(touch, Len(g)))
     \cup Clause("input_changed", ~e.changed)
\* n pads on each of the four sides, counter clockwise from the chosen corner
\* (0: top left), half a step inside
PadsVerdict(e) ==
  LET n == e.n s == R(e.step) h == (R(e.edge) -- s) // RI(2)
      along(m) == s ** (RI(2 * m - n - 1) // RI(2))      \* m-th pad of a side: -.. to ..
      side == <<[m \in 1..n |-> <<RNeg(h), RNeg(along(m))>>], [m \in 1..n |-> <<along(m), RNeg(h)>>],
                [m \in 1..n |-> <<h, along(m)>>], [m \in 1..n |-> <<RNeg(along(m)), h>>]>>
      want == TLCEval([q \in 1..(4 * n) |-> side[((((q - 1) \div n) + e.corner) % 4) + 1][((q - 1) % n) + 1]])
      t == R("1e-12") ** R(e.edge)
  IN Clause("number", Len(e.got) = 4 * n)
     \cup (IF Len(e.got) # 4 * n THEN {} ELSE
        Clause("positions", \A q \in 1..(4 * n) : LET p == Pt(e.got[q]) IN RNear(p[1], want[q][1], t) /\ RNear(p[2], want[q][2], t))
        \cup Clause("centre", e.odd => n % 2 = 1))

\* ---- P32: cells of a lattice -------------------------------------------------
\* the square has e.edge cells per side; a cell is named by its lower left corner
Cl(e) == (-(e.edge \div 2)..((e.edge \div 2) - 1)) \X (-(e.edge \div 2)..((e.edge \div 2) - 1))
Centre(c) == <<RI(c[1]) ++ Half, RI(c[2]) ++ Half>>
\* the unit steps of a lattice path [[x, y], ...] (integers), as the two ends
Abs(n) == IF n < 0 THEN -n ELSE n
Dir(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
SegSteps(a, b) ==
  LET n == Abs(b[1] - a[1]) + Abs(b[2] - a[2]) dx == Dir(b[1] - a[1]) dy == Dir(b[2] - a[2]) IN
  {{<<a[1] + (m - 1) * dx, a[2] + (m - 1) * dy>>, <<a[1] + m * dx, a[2] + m * dy>>} : m \in 1..n}
PathSteps(p) == UNION {SegSteps(p[i], p[i + 1]) : i \in 1..(Len(p) - 1)}
Steps(ps) == TLCEval(UNION {PathSteps(ps[i]) : i \in 1..Len(ps)})
\* the side between neighbouring cells
SideRight(c) == {<<c[1] + 1, c[2]>>, <<c[1] + 1, c[2] + 1>>}
SideUp(c) == {<<c[1], c[2] + 1>>, <<c[1] + 1, c[2] + 1>>}
\* neighbours of cell c within cells S, across no wall of W
Near(c, S, W) ==
  {d \in S : \/ (d = <<c[1] + 1, c[2]>> /\ SideRight(c) \notin W) \/ (d = <<c[1] - 1, c[2]>> /\ SideRight(d) \notin W)
             \/ (d = <<c[1], c[2] + 1>> /\ SideUp(c) \notin W) \/ (d = <<c[1], c[2] - 1>> /\ SideUp(d) \notin W)}
Nbrs(c) == {<<c[1] + 1, c[2]>>, <<c[1] - 1, c[2]>>, <<c[1], c[2] + 1>>, <<c[1], c[2] - 1>>}
RECURSIVE Flood(_, _, _, _)
Flood(done, front, S, W) ==
  IF front = {} THEN done
  ELSE LET new == TLCEval((UNION {Near(c, S \cap Nbrs(c), W) : c \in front}) \ done)
       IN Flood(TLCEval(done \cup new), new, S, W)
Component(c, S, W) == TLCEval(Flood({c}, {c}, S, W))
RECURSIVE Components(_, _)
Components(S, W) == IF S = {} THEN {} ELSE LET c == CHOOSE c \in S : TRUE m == Component(c, S, W) IN {m} \cup Components(TLCEval(S \ m), W)
\* cells enclosed by the walls W
Enclosed(e, W) ==
  LET h == (e.edge \div 2) + 1 m == e.margin
      big == (-(h + m)..(h + m)) \X (-(h + m)..(h + m))
  IN TLCEval(Cl(e) \ Component(<<h + m, h + m>>, big, W))
CellsOf(g, e) == TLCEval({c \in Cl(e) : InParts(Centre(c), g)})
DataVerdict(e) ==
  LET cells == TLCEval(Cl(e)) np == Len(e.polys)
      given == TLCEval([i \in 1..np |-> LET r == Ring(e.polys[i].ring) IN {c \in cells : InRing(Centre(c), r)}])
      rest == TLCEval(cells \ UNION {given[i] : i \in 1..np})
      gapW == Steps(e.gaps) routeW == Steps(e.routes) bridgeW == Steps(e.bridges)
      enc == IF e.routes # <<>> /\ e.bridges # <<>> THEN Enclosed(e, routeW \cup bridgeW) ELSE {}
      inEnc(w) == \A c \in cells : (SideRight(c) = w => (c \in enc /\ <<c[1] + 1, c[2]>> \in enc))
                                /\ (SideUp(c) = w => (c \in enc /\ <<c[1], c[2] + 1>> \in enc))
      walls == TLCEval(routeW \cup (IF enc = {} THEN gapW ELSE {w \in gapW : ~inEnc(w)}))
      cut == e.gaps # <<>> \/ e.routes # <<>>
      frags == TLCEval(IF cut THEN Components(rest, walls) ELSE {})
      ga == Geo(e.plain) n == Len(ga)
      got == TLCEval([i \in 1..n |-> CellsOf(ga[i], e)])
  IN Clause("number", n = np + Cardinality(frags))
     \cup (IF n < np THEN {} ELSE
        Clause("given", \A i \in 1..np : e.plain[i].name = e.polys[i].name /\ got[i] = given[i])
        \cup Clause("fragments", {got[i] : i \in (np + 1)..n} = frags)
        \cup Clause("unnamed", \A i \in (np + 1)..n : e.plain[i].name = ""))
     \cup Clause("lattice", \A i \in 1..n : OnLattice(ga[i], LTol))
     \cup Clause("outside", \A i \in 1..n : \A m \in 1..Len(ga[i]) : \A v \in 1..Len(ga[i][m].ext) :
            RLe(RMaxAbs(ga[i][m].ext[v]), RI(e.edge \div 2) ++ LTol))
     \* names claim the fragments they lie in, in order; the rest keeps its name and order
     \cup (LET at == TLCEval([q \in 1..Len(e.names) |-> Pt(e.names[q].xy)])
               touch == TLCEval([q \in 1..Len(at) |-> TLCEval([i \in 1..n |-> Touches(at[q], ga[i])])])
               as == Assign(touch, n)
               gn == Geo(e.after) gotn == TLCEval([i \in 1..Len(gn) |-> CellsOf(gn[i], e)])
           IN IF Len(gn) # n THEN {"named_number"} ELSE IF e.names = <<>> THEN {} ELSE
              Clause("named", \A i \in 1..n : e.after[i].name = (IF as[i][1] = 0 THEN e.plain[as[i][2]].name ELSE e.names[as[i][1]].name))
              \cup Clause("named_region", \A i \in 1..n : gotn[i] = got[as[i][2]]))

\* ---- P34 ---------------------------------------------------------------------
\* lattice layouts: the boundary as a set of unit steps
IntPt(p) == <<RFloor(p[1] ++ Half), RFloor(p[2] ++ Half)>>
RingSteps(r) == UNION {SegSteps(IntPt(r[i]), IntPt(Nxt(r, i))) : i \in 1..Len(r)}
GapsVerdict(e) ==
  LET g == Geo(e.before)
      want == TLCEval(UNION {UNION {RingSteps(AllRings(g[i])[m]) : m \in 1..Len(AllRings(g[i]))} : i \in 1..Len(g)})
      lines == TLCEval([i \in 1..Len(e.lines) |-> Ring(e.lines[i])])
      steps(i) == UNION {SegSteps(IntPt(lines[i][m]), IntPt(lines[i][m + 1])) : m \in 1..(Len(lines[i]) - 1)}
      got == TLCEval(UNION {steps(i) : i \in 1..Len(lines)})
      count == FoldLeft(LAMBDA a, l : a + FoldLeft(LAMBDA b, m : b + Abs(IntPt(l[m + 1])[1] - IntPt(l[m])[1]) + Abs(IntPt(l[m + 1])[2] - IntPt(l[m])[2]),
                                                   0, [m \in 1..(Len(l) - 1) |-> m]), 0, lines)
  IN Clause("lattice", \A i \in 1..Len(lines) : \A m \in 1..Len(lines[i]) : Whole(lines[i][m][1], LTol) /\ Whole(lines[i][m][2], LTol))
     \cup Clause("boundary", got = want)
     \cup Clause("once", count = Cardinality(want))
     \cup Clause("length", RNear(R(e.length), RI(Cardinality(want)), R("1e-6")))
     \cup Clause("input_changed", ~e.changed)

\* ---- P33 ---------------------------------------------------------------------
\* two rings are the same up to where they start, the sense, and tol
SameRing(a, b, t) ==
  LET n == Len(a) near(p, q) == RNear(p[1], q[1], t) /\ RNear(p[2], q[2], t) IN
  n = Len(b) /\ \E s \in 0..(n - 1) :
     \/ \A i \in 1..n : near(a[i], b[((i + s - 1) % n) + 1])
     \/ \A i \in 1..n : near(a[i], b[((s - i + n) % n) + 1])
\* outer boundaries with names, in order
Outers(l, g) == TLCEval(FoldLeft(LAMBDA s, i : s \o [m \in 1..Len(g[i]) |-> [name |-> l[i].name, ext |-> g[i][m].ext]], <<>>, [i \in 1..Len(g) |-> i]))
GdsTol(e) == (R(e.unit) // R(e.scale)) ** R("0.5000001")
BackVerdict(e) ==
  LET gb == Geo(e.before) ga == Geo(e.after) B == Outers(e.before, gb) A == Outers(e.after, ga) t == GdsTol(e)
      match(b, a) == a.name = b.name /\ SameRing(b.ext, a.ext, t)
  IN IF e.ordered
     THEN Clause("number", Len(A) = Len(B))
          \cup Clause("names", [i \in 1..Len(A) |-> A[i].name] = [i \in 1..Len(B) |-> B[i].name])
          \cup Clause("outlines", Len(A) # Len(B) \/ \A i \in 1..Len(B) : SameRing(B[i].ext, A[i].ext, t))
     ELSE Clause("outlines", \A i \in 1..Len(B) : \E j \in 1..Len(A) : match(B[i], A[j]))
          \cup Clause("names", \A j \in 1..Len(A) : (A[j].name # "" => \E i \in 1..Len(B) : match(B[i], A[j])))
          \cup Clause("twice", \A i \in 1..Len(B) : Cardinality({j \in 1..Len(A) : match(B[i], A[j])}) <= Cardinality({j \in 1..Len(B) : SameRing(B[i].ext, B[j].ext, t)}))
\* the elements of the library
LibVerdict(e) ==
  LET gb == Geo(e.before) B == Outers(e.before, gb)
      f == R(e.scale) // R(e.unit) t == R("0.5000001")
      db(r) == TLCEval([i \in 1..Len(r) |-> <<r[i][1] ** f, r[i][2] ** f>>])
      open(s) == TLCEval(LET r == Ring(s) IN IF Repeats(r) THEN SubSeq(r, 1, Len(r) - 1) ELSE r)
      bs == SelectSeq(e.elements, LAMBDA x : x.t = "boundary")
      ts == SelectSeq(e.elements, LAMBDA x : x.t = "text")
      ws == SelectSeq(e.elements, LAMBDA x : x.t = "path")
      named == SelectSeq(B, LAMBDA b : b.name # "")
      rings == TLCEval(FoldLeft(LAMBDA s, g : s \o AllRings(g), <<>>, gb))
      width == R(e.width) ** f
  IN Clause("unit", RClose(R(e.lib_unit), R(e.unit), R("1e-15"), RZero) /\ e.lib_name = e.name /\ e.structures = <<e.name>>)
     \cup Clause("boundaries", IF e.poly_layer = <<>> THEN bs = <<>> ELSE Len(bs) = Len(B) /\ \A i \in 1..Len(B) :
            /\ bs[i].layer = e.poly_layer[1] /\ bs[i].type = e.poly_layer[2]
            /\ bs[i].name = B[i].name /\ SameRing(db(B[i].ext), open(bs[i].xy), t) /\ Repeats(Ring(bs[i].xy)))
     \cup Clause("texts", IF e.text_layer = <<>> THEN ts = <<>> ELSE Len(ts) = Len(named) /\ \A i \in 1..Len(named) :
            /\ ts[i].layer = e.text_layer[1] /\ ts[i].type = e.text_layer[2]
            /\ ts[i].string = named[i].name /\ ts[i].name = named[i].name
            /\ Len(ts[i].xy) = 1 /\ (LET p == Pt(ts[i].xy[1]) r == db(named[i].ext) IN InRing(p, r) \/ RLe(RingD2(p, r), ROne)))
     \cup Clause("gaps", IF e.gap_layer = <<>> THEN ws = <<>> ELSE Len(ws) = Len(rings) /\ \A i \in 1..Len(rings) :
            /\ ws[i].layer = e.gap_layer[1] /\ ws[i].type = e.gap_layer[2]
            /\ Repeats(Ring(ws[i].xy))
            /\ RNear(R(ws[i].width), width, R("1.0000001"))
            /\ \E m \in 1..Len(rings) : SameRing(db(rings[m]), open(ws[i].xy), t))
     \cup Clause("all_gaps", e.gap_layer = <<>> \/ \A m \in 1..Len(rings) : \E i \in 1..Len(ws) : SameRing(db(rings[m]), open(ws[i].xy), t))
     \cup Clause("input_changed", ~e.changed)
\* clipping to the square: outlines are those of the layout within the square
ClipVerdict(e) ==
  LET pts == Pts(e) gb == Geo(e.before) ga == Geo(e.after) h == R(e.edge) // RI(2)
      \* holes are not part of the outlines
      out(g, p) == \E m \in 1..Len(g) : InRing(p, g[m].ext)
      nm == {e.before[i].name : i \in 1..Len(gb)}
      mem(l, g, n, p) == \E i \in 1..Len(g) : l[i].name = n /\ out(g[i], p)
  IN Clause("names", \A i \in 1..Len(ga) : e.after[i].name \in nm)
     \cup Clause("clipped", \A n \in nm : \A j \in 1..Len(pts) :
            mem(e.after, ga, n, pts[j]) <=> (mem(e.before, gb, n, pts[j]) /\ RLt(RAbs(pts[j][1]), h) /\ RLt(RAbs(pts[j][2]), h)))
     \cup Clause("outside", \A i \in 1..Len(ga) : \A m \in 1..Len(ga[i]) : \A v \in 1..Len(ga[i][m].ext) :
            RLe(RMaxAbs(ga[i][m].ext[v]), h ++ GdsTol(e)))

Verdict(e) ==
  Clause("exception_" \o e.exc, e.exc = "no")
  \cup (IF e.exc # "no" THEN {} ELSE
        CASE e.kind = "op" -> OpVerdict(e)
          [] e.kind = "to_system" -> ToSystemVerdict(e)
          [] e.kind = "from_system" -> FromSystemVerdict(e)
          [] e.kind = "gaps" -> GapVerdict(e)
          [] e.kind = "simplify" -> SimplifyVerdict(e)
          [] e.kind = "smooth" -> SmoothVerdict(e)
          [] e.kind = "validate" -> ValidateVerdict(e)
          [] e.kind = "assign" -> AssignVerdict(e)
          [] e.kind = "pads" -> PadsVerdict(e)
          [] e.kind = "data" -> DataVerdict(e)
          [] e.kind = "network" -> GapsVerdict(e)
          [] e.kind = "back" -> BackVerdict(e)
          [] e.kind = "library" -> LibVerdict(e)
          [] e.kind = "clip" -> ClipVerdict(e))
Init == sc \in 1..TraceLen /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED sc /\ Report(sc, 1, Verdict(Trace[sc]))
Spec == Init /\ [][Next]_<<sc, k>>
=============================================================================
