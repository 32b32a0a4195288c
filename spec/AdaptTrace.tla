----------------------------- MODULE AdaptTrace -----------------------------
(***************************************************************************)
(* Adaptive mesh refinement (P45): what is asked of the mesh generator,    *)
(* and what is returned.                                                   *)
(***************************************************************************)
EXTENDS Region, TraceIn
VARIABLES sc, k

CatAll(s) == FoldLeft(LAMBDA a, b : a \o b, <<>>, s)

Tol(m) == R("1e-12") ** (ROne ++ m)
NearPt(a, b) == /\ RNear(a[1], b[1], Tol(RAbs(b[1]))) /\ RNear(a[2], b[2], Tol(RAbs(b[2])))
\* rings given from another first point on are the same ring
SameRing(a, b) == Len(a) = Len(b) /\ \E s \in 0..(Len(a) - 1) :
                    \A i \in 1..Len(a) : NearPt(a[((i + s - 1) % Len(a)) + 1], b[i])
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* images of a ring under the transformations [m: 4 by 4 matrix, sign]
Image(t, r) ==
  LET m == TLCEval([i \in 1..4 |-> RSeq(t.m[i])])
      f == [i \in 1..Len(r) |-> TLCEval([c \in 1..2 |-> (m[c][1] ** r[i][1]) ++ (m[c][2] ** r[i][2]) ++ m[c][4]])]
  IN TLCEval(IF t.sign = "-1" THEN Rev(f) ELSE f)
Images(ts, r) == IF ts = <<>> THEN <<r>> ELSE [i \in 1..Len(ts) |-> Image(ts[i], r)]

TransformVerdict(e) ==
  LET r == Ring(e.path) want == Images(e.ts, r) IN
  Clause("number", Len(e.got) = Len(want))
  \cup (IF Len(e.got) # Len(want) THEN {} ELSE
    UNION {LET g == Ring(e.got[i]) IN
       Clause("image", Len(g) = Len(want[i]) /\ \A j \in 1..Len(g) : NearPt(g[j], want[i][j])) : i \in 1..Len(want)})
  \cup Clause("input_changed", e.same)

\* ---- requests -----------------------------------------------------------------
Offset(e, i) == FoldLeft(LAMBDA a, j : a + Len(e.paths[j]), 0, [j \in 1..(i - 1) |-> j])
\* undirected sides of all boundaries, as sets of point numbers (from 0)
Sides(e, i) == LET o == Offset(e, i) n == Len(e.paths[i]) IN
               {{o + j, o + ((j + 1) % n)} : j \in 0..(n - 1)}
First(e, q) ==
  LET n == Offset(e, Len(e.paths) + 1)
      all == CatAll([i \in 1..Len(e.paths) |-> e.paths[i]])
      segs == [j \in 1..Len(q.segments) |-> {q.segments[j][1], q.segments[j][2]}]
      of(i) == {j \in 1..Len(segs) : segs[j] \in Sides(e, i)}
      marks(i) == {q.markers[j] : j \in of(i)}
  IN Clause("points", Len(q.points) = n /\ \A j \in 1..n : Len(q.points[j]) = 2 /\ \A c \in 1..2 : R(q.points[j][c]) = R(all[j][c]))
     \cup Clause("sides", /\ Len(segs) = n /\ \A i \in 1..Len(e.paths) : {segs[j] : j \in of(i)} = Sides(e, i)
                          /\ Len(q.markers) = n)
     \cup (IF Len(q.markers) # Len(segs) THEN {} ELSE
        Clause("markers", /\ \A i \in 1..Len(e.paths) : Cardinality(marks(i)) = 1
                          /\ Cardinality(UNION {marks(i) : i \in 1..Len(e.paths)}) = Len(e.paths)
                          /\ \A j \in 1..Len(q.markers) : q.markers[j] > 1))
     \cup Clause("areas_without_solution", ~q.has)
     \cup Clause("types", q.types = <<"float64", "int32", "int32", "True">>)

Tri(m, i) == [c \in 1..3 |-> Pt(m.points[m.triangles[i][c] + 1])]
\* the areas asked after mesh m with potentials u
Later(e, q, m, u0) ==
  LET n == Len(m.triangles)
      u == TLCEval(RSeq(u0))
      thr == R(e.threshold)
      jump == TLCEval([i \in 1..n |-> FoldLeft(LAMBDA a, c : IF m.neighbors[i][c] < 0 THEN a ELSE RMax(a, RAbs(u[m.neighbors[i][c] + 1] -- u[i])),
                                       RZero, <<1, 2, 3>>)])
      area == TLCEval([i \in 1..n |-> Area2(Tri(m, i)) ** RFrac(1, 2)])
      near(x, w) == RNear(x, w, R("1e-9") ** w)
  IN Clause("mesh_not_passed_on", q.back)
     \cup Clause("areas_number", q.has /\ Len(q.areas) = n)
     \cup (IF ~q.has \/ Len(q.areas) # n THEN {} ELSE UNION {
       LET g == R(q.areas[i]) up == near(g, area[i] ** R(e.up)) down == near(g, area[i] // R(e.down)) IN
       IF RNear(jump[i], thr, R("1e-5")) THEN Clause("areas", up \/ down)
       ELSE IF RLt(thr, jump[i]) THEN Clause("jump_not_refined", down)
       ELSE Clause("refined_without_jump", up) : i \in 1..n})

AdaptVerdict(e) ==
  LET used == Len(e.meshes)
      nf == Len(e.fixed) IN
  Clause("number_of_meshes", Len(e.requests) = used + 1)
  \cup Clause("inputs_changed", e.same)
  \cup UNION {LET q == e.requests[i] IN
         Clause("options", RNear(R(q.q), R(e.q), R("1e-6")) /\ RNear(R(q.a), R(e.a), R("1e-6")) /\ q.n)
         \cup (IF i = 1 THEN First(e, q) ELSE IF i <= used + 1 THEN Later(e, q, e.meshes[i - 1], e.pots[i - 1]) ELSE {})
       : i \in 1..Len(e.requests)}
  \cup (IF used = 0 THEN Clause("answer_without_mesh", ~e.answer)
        ELSE IF ~e.answer THEN {"no_answer"}
        ELSE LET m == e.meshes[used] n == Len(m.triangles) v == RSeq(e.v) u == RSeq(e.ufixed \o e.pots[used]) IN
          Clause("number_of_electrodes", Len(e.els) = nf + n /\ Len(v) = nf + n)
          \cup (IF Len(e.els) # nf + n \/ Len(v) # nf + n THEN {} ELSE
            Clause("voltages", \A i \in 1..(nf + n) : RNear(v[i], u[i], R("1e-5") ** (ROne ++ RAbs(u[i]))))
            \cup Clause("strength", RNear(R(e.c), R(e.wantc), R("1e-5") ** (ROne ++ RAbs(R(e.wantc)))))
            \cup Clause("fixed_electrodes", \A i \in 1..nf : Len(e.els[i].paths) = 1 /\ SameRing(Ring(e.els[i].paths[1]), Ring(e.fixed[i])))
            \cup Clause("electrodes", \A i \in 1..n : LET w == Images(e.ts, Tri(m, i)) p == e.els[nf + i].paths IN
                   Len(p) = Len(w) /\ \A j \in 1..Len(w) : SameRing(Ring(p[j]), w[j]))
            \cup Clause("electrode_options", \A i \in 1..n : R(e.els[nf + i].cover) = R(e.cover))))

Verdict(e) == Clause("exception_" \o e.exc, e.exc = "no")
  \cup (IF e.exc # "no" THEN {} ELSE IF e.kind = "transform" THEN TransformVerdict(e) ELSE AdaptVerdict(e))
Init == sc \in 1..TraceLen /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED sc /\ Report(sc, 1, Verdict(Trace[sc]))
Spec == Init /\ [][Next]_<<sc, k>>
=============================================================================
