---------------------------- MODULE FieldTrace ----------------------------
(***************************************************************************)
(* Events of electrode potentials (P08 - P13).                             *)
(***************************************************************************)
EXTENDS Fields, SphHarm, TraceIn
VARIABLES sc, k

TwoD(p) == [i \in 1..Len(p) |-> RSeq(p[i])]
\* the image points of p under a cover
Images(e, p) == [i \in 1..(2 * e.nmax + 1) |-> <<p[1], p[2], p[3] ++ (RI(2 * (i - 1 - e.nmax)) ** R(e.h))>>]

\* specified derivatives along n at p, orders 0..N
Want(e, p, n, N) ==
  LET im == TLCEval(Images(e, p))
      L == [q \in 1..Len(e.loops) |-> TLCEval(TwoD(e.loops[q].p))]
      One(q, i) == LET v == R(e.loops[q].v) IN
         SScale(v, <<LoopPot(L[q], im[i])>> \o (IF N = 0 THEN <<>> ELSE LoopDeriv(L[q], im[i], n, N - 1)))
      Pix(q, i) == SScale(R(e.pixels[q].v) ** R(e.pixels[q].a), PixelDeriv(RSeq(e.pixels[q].p), im[i], n, N))
      Cov(q) == LET v == R(e.cover[q].v) // R(e.cover[q].h) IN
         [o \in 1..(N + 1) |-> IF o = 1 THEN v ** p[3] ELSE IF o = 2 THEN v ** n[3] ELSE RZero]
      ni == Len(im)
  IN  SSumSeq([a \in 1..(Len(L) * ni) |-> One(((a - 1) \div ni) + 1, ((a - 1) % ni) + 1)]
           \o [a \in 1..(Len(e.pixels) * ni) |-> Pix(((a - 1) \div ni) + 1, ((a - 1) % ni) + 1)]
           \o [a \in 1..Len(e.cover) |-> Cov(a)], N)

Perimeter(lp) == RSum([i \in 1..Len(lp) |-> LET a == lp[i] b == lp[(i % Len(lp)) + 1] IN
                        RSqrt(((a[1] -- b[1]) ** (a[1] -- b[1])) ++ ((a[2] -- b[2]) ** (a[2] -- b[2])))])
\* magnitude of an order-o derivative: what rounding is measured against
Mag(e, p, o) ==
  LET im == TLCEval(Images(e, p))
      ni == Len(im)
      f == RI(Fact(o))
      \* far away the edges of a loop count by their length
      Lq(q, i) == LET lp == TLCEval(TwoD(e.loops[q].p)) d == TLCEval(LoopDist(lp, im[i])) IN
                  RAbs(R(e.loops[q].v)) ** ((RI(Len(lp)) ** (f // RPow(d, o))) ** (IF o = 0 \/ RLt(d, Perimeter(lp)) THEN ROne ELSE Perimeter(lp) // d))
      Pq(q, i) == LET w == Vec(im[i], P3(RSeq(e.pixels[q].p))) IN
                  RAbs(R(e.pixels[q].v)) ** (RAbs(R(e.pixels[q].a)) ** (f // RPow(NormV(w), o + 2)))
      Cq(q) == RAbs(R(e.cover[q].v) // R(e.cover[q].h)) ** (ROne ++ RAbs(p[3]))
  IN RSum([a \in 1..(Len(e.loops) * ni) |-> Lq(((a - 1) \div ni) + 1, ((a - 1) % ni) + 1)]
           \o [a \in 1..(Len(e.pixels) * ni) |-> Pq(((a - 1) \div ni) + 1, ((a - 1) % ni) + 1)]
           \o [a \in 1..Len(e.cover) |-> Cq(a)])

FieldVerdict(e) ==
  UNION {
    LET p == RSeq(e.x[b])
        g == e.got[b]
        N == Len(g) - 1
        nd == 2 * N + 1
        w == TLCEval([q \in 1..nd |-> Want(e, p, Dirs[q], N)])
    IN  UNION {LET r == RSeq(g[o + 1])
                   tol == R(e.tol) ** Mag(e, p, o)
               IN Clause("order_" \o ToString(o), Len(r) = 2 * o + 1
                    /\ \A q \in 1..(2 * o + 1) : RNear(Along(r, o, Dirs[q]), w[q][o + 1], tol)) : o \in 0..N}
    : b \in 1..Len(e.x)}
  \cup Clause("points", Len(e.got) = Len(e.x))

\* ---- P09: conversion to pixels ---------------------------------------------
Area2(lp) == RSum([i \in 1..Len(lp) |-> LET a == EdgeI(lp, i)[1] b == EdgeI(lp, i)[2] IN (a[1] ** b[2]) -- (b[1] ** a[2])])
Cent(lp) == LET A == Area2(lp) IN [c \in 1..2 |->
   RSum([i \in 1..Len(lp) |-> LET a == EdgeI(lp, i)[1] b == EdgeI(lp, i)[2] IN
        (a[c] ++ b[c]) ** ((a[1] ** b[2]) -- (b[1] ** a[2]))]) // (RI(3) ** A)]
Ext(lp) == RMaxAbs([i \in 1..(2 * Len(lp)) |-> lp[((i - 1) \div 2) + 1][((i - 1) % 2) + 1]])
ConvVerdict(e) ==
  LET n == Len(e.paths) IN
  Clause("number", Len(e.areas) = n /\ Len(e.points) = n)
  \cup (IF Len(e.areas) # n \/ Len(e.points) # n THEN {} ELSE
   UNION {LET lp == TwoD(e.paths[i]) s == Ext(lp) IN
    Clause("area", RNear(R(e.areas[i]), Area2(lp) // RI(2), R("1e-12") ** s ** s))
    \cup Clause("centroid", Len(e.points[i]) = 2 /\ \A c \in 1..2 : RNear(R(e.points[i][c]), Cent(lp)[c],
            R("1e-12") ** s ** RMax(ROne, (s ** s) // RAbs(Area2(lp))))) : i \in 1..n})
  \cup Clause("attributes", e.attrs = e.want)
\* e.far: potentials of polygon and pixels at distances growing by factors of 4
FarVerdict(e) ==
  LET d == [i \in 1..Len(e.poly) |-> RAbs(R(e.poly[i]) -- R(e.pix[i])) // RAbs(R(e.poly[i]))] IN
  Clause("approaches", \A i \in 1..Len(d) : RLe(d[i], R(e.bound[i])))

\* ---- P11: on the cover -----------------------------------------------------
\* Only the outermost image is left on the cover: at most area over z^2 of it.
VanishVerdict(e) ==
  LET bound(i) == LET z == RI(2 * e.ns[i] + 1) ** R(e.h) IN R(e.area) // (RI(2) ** RPi ** z ** z) IN
  Clause("vanishes", Len(e.v) = Len(e.ns) /\ \A i \in 1..Len(e.v) :
     RLe(RAbs(R(e.v[i])), (R("1.000001") ** bound(i)) ++ R("1e-12")))

\* ---- P12: symmetries: e.after = transformation of e.before ------------------
\* before/after: [order][comp]; the transformation of the tensor: matrix m
\* (new coordinates y = m x), factor f[o] per order.
MT(m, n) == [i \in 1..3 |-> RSum([j \in 1..3 |-> m[j][i] ** n[j]])]
SymVerdict(e) ==
  LET m == [i \in 1..3 |-> RSeq(e.m[i])] N == Len(e.before) - 1 IN
  Clause("orders", Len(e.after) = N + 1)
  \cup UNION {LET a == RSeq(e.after[o + 1]) b == RSeq(e.before[o + 1])
                  f == RI(e.sign) ** RPow(ROne // R(e.scale), o)
                  tol == R(e.tol) ** (R(e.mag[o + 1]) ** RPow(ROne // R(e.scale), o)) IN
       Clause(e.what, Len(a) = 2 * o + 1 /\ Len(b) = 2 * o + 1 /\ \A q \in 1..(2 * o + 1) :
          RNear(Along(a, o, Dirs[q]), f ** Along(b, o, MT(m, Dirs[q])), tol)) : o \in 0..N}
\* after is the sum of the parts
AddVerdict(e) ==
  UNION {LET n == 2 * o + 1 IN
     Clause(e.what, Len(e.after[o + 1]) = n /\ \A c \in 1..n :
        RNear(R(e.after[o + 1][c]), RSum([i \in 1..Len(e.parts) |-> R(e.parts[i][o + 1][c])]), R(e.tol) ** R(e.mag[o + 1])))
     : o \in 0..(Len(e.after) - 1)}

\* ---- P13 --------------------------------------------------------------------
\* e.a, e.b flat results of the two kernels; e.mag: magnitude
SameVerdict(e) == Clause(e.what, Len(e.a) = Len(e.b) /\ Len(e.a) = e.size /\ \A i \in 1..Len(e.a) :
     RNear(R(e.a[i]), R(e.b[i]), R(e.tol) ** R(e.mag[i])))
OutVerdict(e) ==
  Clause("shape", e.shape = <<e.np, 2 * e.n + 1>>)
  \cup Clause("same_array", e.same)
  \cup Clause("new_array", e.fresh)
  \cup Clause("inputs_changed", ~e.changed)
  \cup Clause("repeatable", e.again = e.got)
  \cup Clause("accumulates", Len(e.acc) = Len(e.got) /\ \A i \in 1..Len(e.acc) :
       RNear(R(e.acc[i]), R(e.start[i]) ++ R(e.got[i]), R("1e-11") ** (RAbs(R(e.start[i])) ++ R(e.mag[i]))))

Verdict(e) ==
  Clause("exception_" \o e.exc, e.exc = "no")
  \cup (IF e.exc # "no" THEN {} ELSE
        CASE e.kind \in {"polygon", "pixel", "mesh", "covered", "cover", "frommesh"} -> FieldVerdict(e)
          [] e.kind = "convert" -> ConvVerdict(e)
          [] e.kind = "far" -> FarVerdict(e)
          [] e.kind = "vanish" -> VanishVerdict(e)
          [] e.kind = "symmetry" -> SymVerdict(e)
          [] e.kind = "additive" -> AddVerdict(e)
          [] e.kind = "kernels" -> SameVerdict(e)
          [] e.kind = "out" -> OutVerdict(e))
Init == sc \in 1..TraceLen /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED sc /\ Report(sc, 1, Verdict(Trace[sc]))
Spec == Init /\ [][Next]_<<sc, k>>
=============================================================================
