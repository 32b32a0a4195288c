---------------------------- MODULE TransfTrace ----------------------------
(* Homogeneous transformations and their inverses (P37). *)
EXTENDS Homog, TraceIn
VARIABLES sc, k

M4(a) == TLCEval([i \in 1..4 |-> RSeq(a[i])])
Is4(a) == Len(a) = 4 /\ \A i \in 1..4 : Len(a[i]) = 4
V(a) == TLCEval(RSeq(a))
Fine == R("1e-12")
None(a) == a = <<>>
Origin(a) == IF None(a) THEN VZero ELSE V(a)
\* does the matrix m (numbers) do what the parameters q of op say? Compared at
\* the probe points that are not mapped to (near) infinity.
Def(op, q, p) ==
  CASE op = "translation" -> Translate(V(q.d), p)
    [] op = "identity" -> p
    [] op = "reflection" -> Reflect(V(q.point), VUnit(V(q.normal)), p)
    [] op = "rotation" -> RotateAbout(VUnit(V(q.direction)), R(q.angle), Origin(q.point), p)
    [] op = "scale" -> IF None(q.direction) THEN ScaleAll(R(q.factor), Origin(q.origin), p)
                       ELSE ScaleAlong(R(q.factor), Origin(q.origin), VUnit(V(q.direction)), p)
    [] op = "projection" -> LET n == VUnit(V(q.normal)) IN
          IF ~None(q.perspective) THEN ProjectFrom(V(q.point), n, V(q.perspective), p)
          ELSE IF ~None(q.direction) THEN ProjectAlong(V(q.point), n, V(q.direction), p)
          ELSE ProjectOrtho(V(q.point), n, p)
    [] op = "shear" -> LET a == R(q.angle) IN Shear(RSin(a) // RCos(a), V(q.point), VUnit(V(q.normal)), VUnit(V(q.direction)), p)
Apart(x, y, tol) == ~VNear(x, y, tol)
Big(v) == RMax(ROne, RMaxAbs(v))
\* far from the eye's plane, relative to the distances that occur
Regular(op, q, m, p) ==
  (op = "projection" /\ ~None(q.perspective)) =>
     LET c == V(q.perspective) n == VUnit(V(q.normal))
     IN RLt(R("1e-2") ** Big(c), RAbs(Dot(VSub(p, c), n)))
Does(op, q, m, tol) ==
  \A i \in 1..Len(Probe) : LET p == Probe[i] IN
    Regular(op, q, m, p) =>
      IF op = "projection" /\ q.pseudo /\ ~None(q.perspective)
      THEN \* the foot is where the perspective projection lands; what is left is depth
           LET y == Image(m, p) n == VUnit(V(q.normal)) o == V(q.point) w == Def(op, q, p)
           IN VNear(ProjectOrtho(o, n, y), w, tol ** Big(w) ** Big(y))
      ELSE LET y == Image(m, p) w == Def(op, q, p) IN VNear(y, w, tol ** Big(w))
\* relative depth: points at larger height below the eye come to lie deeper
\* or higher, strictly in one sense, and the plane stays where it is
Depth(m, o, n, p) == Height(Image(m, p), o, n)
Depths(q, m) ==
  LET n == VUnit(V(q.normal)) o == V(q.point) c == V(q.perspective) hc == Height(c, o, n)
      \* points on a ray off the eye at fractions of its height
      at(f) == VAdd(VSub(c, VScale((ROne -- f) ** hc, n)), VScale(R("0.3"), Cross(n, VUnit(VAdd(n, <<R("0.1"), R("0.7"), R("-0.4")>>)))))
      d(f) == Depth(m, o, n, at(R(f)))
      s == RLt(d("-1"), d("0"))
  IN /\ RNear(d("0"), RZero, R("1e-9") ** Big(c))
     /\ RLt(d("-1"), d("0")) = s /\ RLt(d("0"), d("0.3")) = s /\ RLt(d("0.3"), d("0.6")) = s /\ RLt(d("0.6"), d("0.9")) = s
     /\ ~REq(d("-1"), d("0"))
\* numbers in the parameters

Mag(q) == R(q.mag)
Tolerance(q) == Fine ** Mag(q) ** Mag(q)
MakeVerdict(e) ==
  LET q == e.q IN
  Clause("failed", e.failed = <<>>)
  \cup Clause("shape", \A i \in 1..Len(e.mats) : Is4(e.mats[i]))
  \cup Clause("acts", \A i \in 1..Len(e.mats) : Is4(e.mats[i]) => Does(e.op, q, M4(e.mats[i]), Tolerance(q)))
  \cup Clause("affine", \A i \in 1..Len(e.mats) : (e.op # "projection" \/ None(q.perspective)) =>
              \A j \in 1..4 : RNear(R(e.mats[i][4][j]), IF j = 4 THEN ROne ELSE RZero, RZero))
  \cup (IF e.op = "projection" /\ q.pseudo /\ ~None(q.perspective)
        THEN Clause("depth", \A i \in 1..Len(e.mats) : Depths(q, M4(e.mats[i]))) ELSE {})
ClipVerdict(e) ==
  LET b == V(e.bounds) l == b[1] r == b[2] bt == b[3] t == b[4] n == b[5] f == b[6]
      bad == ~(RLt(l, r) /\ RLt(bt, t) /\ RLt(n, f)) \/ (e.perspective /\ ~RLt(R("1e-15"), n))
      xs == <<l, r, (l ++ r) // RI(2), l ++ ((r -- l) // RI(7))>>
      ys == <<bt, t, (bt ++ t) // RI(3), t ++ ROne>>
      zs == <<n, f, (n ++ f) // RI(2)>>
      \* a point of the box, or on the ray from the eye through that point of the near plane
      pt(x, y, z) == IF e.perspective THEN <<(x ** z) // n, (y ** z) // n, z>> ELSE <<x, y, z>>
      dep(z) == IF e.perspective THEN ((f ++ n) -- ((RI(2) ** n ** f) // z)) // (f -- n) ELSE Lin(n, f, z)
  IN IF bad THEN Clause("accepted", \A i \in 1..Len(e.failed) : e.failed[i] = "ValueError")
               \cup Clause("accepted", e.mats = <<>>)
     ELSE Clause("failed", e.failed = <<>>)
       \cup Clause("clip", \A i \in 1..Len(e.mats) : \A a \in 1..4, c \in 1..4, d \in 1..3 :
             LET y == Image(M4(e.mats[i]), pt(xs[a], ys[c], zs[d]))
                 w == <<Lin(l, r, xs[a]), Lin(bt, t, ys[c]), dep(zs[d])>>
             IN VNear(y, w, R("1e-11") ** Big(w) ** R(e.mag)))
RefuseVerdict(e) == Clause("accepted", e.mats = 0 /\ \A i \in 1..Len(e.failed) : e.failed[i] \in {"ValueError", "LinAlgError"})
\* parameters recovered from a matrix: parameters of the same transformation
RecoverVerdict(e) ==
  IF e.failed # <<>> THEN {"failed"} ELSE
  LET m == M4(e.M) q == e.q IN
  IF e.op = "projection" /\ q.pseudo
  THEN \* the same matrix up to a factor: compare what both do to points
       Clause("recovered", /\ Does(e.op, q, m, R("1e-7") ** Mag(q)) /\ Depths(q, m))
       \cup Clause("same", LET m2 == M4(e.again) IN \A i \in 1..Len(Probe) : Regular(e.op, q, m, Probe[i]) =>
               LET a == Image(m, Probe[i]) b == Image(m2, Probe[i]) IN VNear(a, b, R("1e-7") ** Mag(q) ** Big(a)))
  ELSE Clause("recovered", Does(e.op, q, m, R("1e-7") ** Mag(q)))

\* ---- composition ---------------------------------------------------------
Opt(a, f(_), d) == IF None(a) THEN d ELSE f(V(a))
Composed(e) ==
  LET P == Opt(e.persp, LAMBDA v : [Ident4 EXCEPT ![4] = v], Ident4)
      T == Opt(e.translate, LAMBDA v : Of3(Ident, v), Ident4)
      Ro == Opt(e.angles, LAMBDA v : Of3(Euler("s", <<1, 2, 3>>, v[1], v[2], v[3]), VZero), Ident4)
      Z == Opt(e.shear, LAMBDA v : Of3(<<<<ROne, v[1], v[2]>>, <<RZero, ROne, v[3]>>, <<RZero, RZero, ROne>>>>, VZero), Ident4)
      S == Opt(e.scale, LAMBDA v : Of3(<<<<v[1], RZero, RZero>>, <<RZero, v[2], RZero>>, <<RZero, RZero, v[3]>>>>, VZero), Ident4)
      W == M4Mul(P, M4Mul(T, M4Mul(Ro, M4Mul(Z, S))))
  IN TLCEval([i \in 1..4 |-> [j \in 1..4 |-> W[i][j] // W[4][4]]])
ComposeVerdict(e) ==
  IF e.failed # <<>> THEN {"failed"} ELSE
  LET W == Composed(e) m == M4(e.M) tol == R(e.tol) ** RMax(ROne, MatMax(W))
  IN Clause("composed", \A i, j \in 1..4 : RNear(m[i][j] // m[4][4], W[i][j], tol))
     \cup Clause("normalized", e.op = "decompose" \/ RNear(m[4][4], ROne, Fine))
ConcatVerdict(e) ==
  LET W == FoldLeft(LAMBDA a, b : M4Mul(a, M4(b)), Ident4, e.ms) m == M4(e.M)
  IN Clause("concatenated", \A i, j \in 1..4 : RNear(m[i][j], W[i][j], Fine ** RMax(ROne, MatMax(W)) ** R(e.mag)))
InverseVerdict(e) ==
  LET n == Len(e.M) A == TLCEval([i \in 1..n |-> RSeq(e.M[i])]) IN
  Clause("failed", e.failed = <<>>)
  \cup Clause("inverse", \A v \in 1..Len(e.inv) :
         LET B == TLCEval([i \in 1..n |-> RSeq(e.inv[v][i])])
             Bt == TLCEval([j \in 1..n |-> [i \in 1..n |-> B[i][j]]])
         IN \A i, j \in 1..n :
              RNear(RDot(A[i], Bt[j]), IF i = j THEN ROne ELSE RZero,
                    R("1e-10") ** RMax(ROne, RSum([l \in 1..n |-> RAbs(A[i][l] ** Bt[j][l])]))))
SameVerdict(e) == Clause("same", e.same = e.want)

\* ---- fitting -------------------------------------------------------------
Points(a) == LET n == Len(a[1]) IN TLCEval([c \in 1..n |-> [r \in 1..Len(a) |-> R(a[r][c])]])
Centroid(ps) == TLCEval([r \in 1..Len(ps[1]) |-> RSum([c \in 1..Len(ps) |-> ps[c][r]]) // RI(Len(ps))])
Centered(ps) == LET m == Centroid(ps) IN TLCEval([c \in 1..Len(ps) |-> [r \in 1..Len(ps[1]) |-> ps[c][r] -- m[r]]])
Spread(ps) == RSum([c \in 1..Len(ps) |-> RDot(ps[c], ps[c])])
Lin0(m, d, p) == [i \in 1..d |-> RSum([j \in 1..d |-> m[i][j] ** p[j]]) ++ m[i][d + 1]]
FitVerdict(e) ==
  IF e.failed # <<>> THEN {"failed"} ELSE
  LET a == Points(e.v0) b == Points(e.v1) d == Len(e.v0)
      A == Centered(a) B == Centered(b) big == R(e.mag)
      Square(x) == Len(x) = d + 1 /\ \A i \in 1..(d + 1) : Len(x[i]) = d + 1
      m(v) == TLCEval([i \in 1..(d + 1) |-> RSeq(e.mats[v][i])])
      one(v) ==
        LET x == m(v) tol == R(e.tol) ** big
            L == [i \in 1..d |-> [j \in 1..d |-> x[i][j]]]
            s == IF e.scale THEN RSqrt(Spread(B) // Spread(A)) ELSE ROne
            Ro == TLCEval([i \in 1..d |-> [j \in 1..d |-> L[i][j] // s]])
            H == TLCEval([i \in 1..d |-> [j \in 1..d |-> RSum([c \in 1..Len(A) |-> B[c][i] ** A[c][j]])]])
            S == TLCEval([i \in 1..d |-> [j \in 1..d |-> RSum([l \in 1..d |-> Ro[l][i] ** H[l][j]])]])
            h == RMaxAbs([i \in 1..d |-> RMaxAbs(H[i])]) st == R(e.tol) ** RMax(h, R("1e-300"))
            cm == Lin0(x, d, Centroid(a)) cb == Centroid(b)
        IN Clause("last_row", \A j \in 1..(d + 1) : RNear(x[d + 1][j], IF j = d + 1 THEN ROne ELSE RZero, R("1e-10")))
           \cup Clause("reproduces", e.exact => \A c \in 1..Len(a) : LET y == Lin0(x, d, a[c]) IN \A i \in 1..d : RNear(y[i], b[c][i], tol))
           \cup (IF e.shear THEN {} ELSE
              Clause("centroid", \A i \in 1..d : RNear(cm[i], cb[i], tol))
              \cup Clause("similar", \A i, j \in 1..d : RNear(RSum([l \in 1..d |-> Ro[i][l] ** Ro[j][l]]), IF i = j THEN ROne ELSE RZero, R("1e-9")))
              \cup Clause("proper", IF d = 3 THEN RLt(RZero, Det3(Ro)) ELSE IF d = 2 THEN RLt(Ro[1][2] ** Ro[2][1], Ro[1][1] ** Ro[2][2]) ELSE TRUE)
              \* least squares: the rotation is the best one
              \cup Clause("best", IF d > 3 THEN TRUE ELSE
                    /\ \A i, j \in 1..d : RNear(S[i][j], S[j][i], st)
                    /\ IF d = 2 THEN RLe(RNeg(st), S[1][1] ++ S[2][2])
                       ELSE LET t == S[1][1] ++ S[2][2] ++ S[3][3]
                                K == TLCEval(Mat(LAMBDA i, j : (IF i = j THEN t ++ st ELSE RZero) -- ((S[i][j] ++ S[j][i]) // RI(2))))
                            IN /\ \A i \in 1..3 : RLe(RNeg(st), K[i][i])
                               /\ \A i, j \in 1..3 : i < j => RLe(RNeg(RI(4) ** st ** h), (K[i][i] ** K[j][j]) -- (K[i][j] ** K[j][i]))
                               /\ RLe(RNeg(RI(8) ** st ** h ** h), Det3(K))))
  IN IF \E v \in 1..Len(e.mats) : ~Square(e.mats[v]) THEN {"shape"} ELSE UNION {one(v) : v \in 1..Len(e.mats)}
\* crystal cells: the columns are the cell vectors
CellVerdict(e) ==
  IF e.failed # <<>> THEN {"failed"} ELSE
  LET l == V(e.lengths) g == TLCEval([i \in 1..3 |-> RCos((R(e.angles[i]) ** RPi) // RI(180))])
      col(m, j) == <<m[1][j], m[2][j], m[3][j]>>
      one(m) == LET a == col(m, 1) b == col(m, 2) c == col(m, 3) IN
         Clause("lengths", RClose(Dot(a, a), l[1] ** l[1], Fine, RZero) /\ RClose(Dot(b, b), l[2] ** l[2], Fine, RZero) /\ RClose(Dot(c, c), l[3] ** l[3], Fine, RZero))
         \cup Clause("angles", LET t == Fine IN /\ RNear(Dot(b, c), l[2] ** l[3] ** g[1], t ** l[2] ** l[3])
                                               /\ RNear(Dot(a, c), l[1] ** l[3] ** g[2], t ** l[1] ** l[3])
                                               /\ RNear(Dot(a, b), l[1] ** l[2] ** g[3], t ** l[1] ** l[2]))
         \cup Clause("right_handed", RLt(RZero, Det3(<<a, b, c>>)))
         \cup Clause("c_along_z", RNear(c[1], RZero, RZero) /\ RNear(c[2], RZero, RZero) /\ RNear(b[1], RZero, RZero))
         \cup Clause("affine", \A j \in 1..4 : RNear(m[4][j], IF j = 4 THEN ROne ELSE RZero, RZero) /\ (j < 4 => RNear(m[j][4], RZero, RZero)))
  IN UNION {one(M4(e.mats[v])) : v \in 1..Len(e.mats)}

\* ---- vectors: data as lines along the axis ------------------------------------
NormVerdict(e) ==
  IF e.failed # <<>> THEN {"failed"} ELSE
  LET ls == TLCEval([i \in 1..Len(e.lines) |-> RSeq(e.lines[i])])
      nr == TLCEval([i \in 1..Len(ls) |-> RSqrt(RDot(ls[i], ls[i]))])
  IN Clause("norm", \A v \in 1..Len(e.norms) : Len(e.norms[v]) = Len(ls) /\ \A i \in 1..Len(ls) : RClose(R(e.norms[v][i]), nr[i], R("1e-14"), RZero))
     \cup Clause("unit", \A v \in 1..Len(e.units) : Len(e.units[v]) = Len(ls) /\ \A i \in 1..Len(ls) :
            Len(e.units[v][i]) = Len(ls[i]) /\ \A j \in 1..Len(ls[i]) : RNear(R(e.units[v][i][j]) ** nr[i], ls[i][j], R("1e-14") ** nr[i]))
     \cup Clause("shape", e.shapes)
PairVerdict(e) ==
  IF e.failed # <<>> THEN {"failed"} ELSE
  LET n == Len(e.a) a == [i \in 1..n |-> V(e.a[i])] b == [i \in 1..n |-> V(e.b[i])] IN
  Clause("product", Len(e.cross) = n /\ \A i \in 1..n : VNear(V(e.cross[i]), Cross(a[i], b[i]), R("1e-14") ** VNorm(a[i]) ** VNorm(b[i])))
  \cup Clause("angle", Len(e.angle) = n /\ \A i \in 1..n :
       LET c == VNorm(Cross(a[i], b[i])) d == Dot(a[i], b[i])
           w == RAtan2(c, IF e.directed THEN d ELSE RAbs(d))
       IN RNear(R(e.angle[i]), w, R("1e-14") // RMax(RSin(w), R("1e-7"))))
UniformVerdict(e) == Clause("range", \A i \in 1..Len(e.v) : LET x == R(e.v[i]) IN RLe(RZero, x) /\ RLt(x, ROne))
  \cup Clause("shape", e.shapes) \cup Clause("failed", e.failed = <<>>)

Verdict(e) ==
  CASE e.kind = "make" -> MakeVerdict(e)
    [] e.kind = "clip" -> ClipVerdict(e)
    [] e.kind = "refuse" -> RefuseVerdict(e)
    [] e.kind = "recover" -> RecoverVerdict(e)
    [] e.kind \in {"compose", "decompose"} -> ComposeVerdict(e)
    [] e.kind = "concat" -> ConcatVerdict(e)
    [] e.kind = "inverse" -> InverseVerdict(e)
    [] e.kind = "same" -> SameVerdict(e)
    [] e.kind = "fit" -> FitVerdict(e)
    [] e.kind = "cell" -> CellVerdict(e)
    [] e.kind = "norm" -> NormVerdict(e)
    [] e.kind = "pair" -> PairVerdict(e)
    [] e.kind = "uniform" -> UniformVerdict(e)
Init == sc \in 1..TraceLen /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED sc /\ Report(sc, 1, Verdict(Trace[sc]))
Spec == Init /\ [][Next]_<<sc, k>>
=============================================================================
