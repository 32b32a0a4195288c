----------------------------- MODULE GridTrace -----------------------------
(***************************************************************************)
(* Gridded data (P14, P15) and grids of points (P16).                      *)
(* A grid of shape <<n1, n2, n3>> is stored flat, last axis fastest, with  *)
(* nc components per cell: cell (i, j, k), component c (all from 0) is     *)
(* element ((i n2 + j) n3 + k) nc + c + 1.                                 *)
(***************************************************************************)
EXTENDS Tensor, TraceIn
VARIABLES sc, k

At(d, sh, nc, idx, c) == R(d[((idx[1] * sh[2] + idx[2]) * sh[3] + idx[3]) * nc + c + 1])
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
RECURSIVE RMinOf(_)
RMinOf(s) == IF Len(s) = 1 THEN RAbs(s[1]) ELSE LET m == RMinOf(Tail(s)) IN IF RLt(RAbs(s[1]), m) THEN RAbs(s[1]) ELSE m

\* ---- P14: trilinear interpolation ------------------------------------------
\* position in units of cells, clamped to the grid
CellPos(x, o, s, n) ==
  LET q == (x -- o) // s
      hi == RI(n - 1)
  IN  IF RLt(q, RZero) THEN RZero ELSE IF RLt(hi, q) THEN hi ELSE q
Interp(e, p, c) ==
  LET q == TLCEval([a \in 1..3 |-> CellPos(R(p[a]), R(e.origin[a]), R(e.spacing[a]), e.shape[a])])
      i0 == TLCEval([a \in 1..3 |-> MinI(RFloor(q[a]), MaxI(e.shape[a] - 2, 0))])
      w == TLCEval([a \in 1..3 |-> q[a] -- RI(i0[a])])
      Wt(a, b) == IF b = 1 THEN w[a] ELSE ROne -- w[a]
      Id(a, b) == MinI(i0[a] + b, e.shape[a] - 1)
      corner(m) == << m \div 4, (m \div 2) % 2, m % 2 >>
  IN RSum([m \in 1..8 |-> LET b == corner(m - 1) IN
       (Wt(1, b[1]) ** (Wt(2, b[2]) ** Wt(3, b[3]))) ** At(e.data, e.shape, 2 * e.n + 1, <<Id(1, b[1]), Id(2, b[2]), Id(3, b[3])>>, c)])
InterpVerdict(e) ==
  LET nc == 2 * e.n + 1 s == RMaxAbs(RSeq(e.data)) ** RAbs(R(e.v)) IN
  Clause("shape", e.gshape = <<Len(e.x), nc>>)
  \cup (IF e.gshape # <<Len(e.x), nc>> THEN {} ELSE
   UNION {Clause(e.what, \A c \in 1..nc : RNear(R(e.got[p][c]), R(e.v) ** Interp(e, e.x[p], c - 1), R("1e-11") ** s)) : p \in 1..Len(e.x)})

\* ---- P15: generated orders --------------------------------------------------
\* difference quotient along axis a (1..3) of component c of order-n data d
Diff(d, sh, nc, idx, c, a, h) ==
  LET up == [idx EXCEPT ![a] = MinI(@ + 1, sh[a] - 1)]
      dn == [idx EXCEPT ![a] = MaxI(@ - 1, 0)]
  IN  (At(d, sh, nc, up, c) -- At(d, sh, nc, dn, c)) // (RI(up[a] - dn[a]) ** h)
Cells(sh) == {<<i, j, l>> : i \in 0..(sh[1] - 1), j \in 0..(sh[2] - 1), l \in 0..(sh[3] - 1)}
\* ways of naming component i of order n as component j of order n-1 and an axis
Recipes(n, i) == {ja \in (1..(2 * n - 1)) \X (1..3) : Sorted(Comps(n - 1)[ja[1]] \o <<ja[2]>>) = Comps(n)[i]}
GenVerdict(e) ==
  LET sh == e.shape  given == Len(e.before) IN
  Clause("orders", Len(e.after) = MaxI(given, e.max))
  \cup Clause("shapes", \A n \in 1..Len(e.after) : e.ashape[n] = sh \o <<2 * n - 1>>)
  \cup Clause("given_data_kept", \A n \in 1..MinI(given, Len(e.after)) : e.after[n] = e.before[n] /\ e.untouched[n])
  \cup (IF \E n \in 1..Len(e.after) : e.ashape[n] # sh \o <<2 * n - 1>> THEN {} ELSE
   UNION {LET n == q - 1 lo == e.after[q - 1] hi == e.after[q]
              nl == 2 * n - 1
              big == TLCEval([j \in 1..nl |-> RMaxAbs([i \in 1..(Len(lo) \div nl) |-> R(lo[((i - 1) * nl) + j])])])
              tol(r) == R("1e-13") ** (big[r[1]] // RAbs(R(e.spacing[r[2]]))) IN
      Clause("difference_order_" \o ToString(n), \A i \in 1..(2 * n + 1) : \E r \in Recipes(n, i) :
         \A id \in Cells(sh) : RNear(At(hi, sh, 2 * n + 1, id, i - 1),
             Diff(lo, sh, 2 * n - 1, id, r[1] - 1, r[2], R(e.spacing[r[2]])), tol(r)))
      : q \in (given + 1)..Len(e.after)})
\* data of a harmonic polynomial: exact inside.  e.poly: coefficients by
\* multi-index of the potential, order by order as reduced tensors at the origin
\* of coordinates; only orders <= 2 are non-zero.
ExactVerdict(e) ==
  LET sh == e.shape
      g == RSeq(e.grad) h == RSeq(e.hess)     \* reduced orders 1 and 2 at the coordinate origin
      X(id) == [a \in 1..3 |-> R(e.origin[a]) ++ (RI(id[a]) ** R(e.spacing[a]))]
      W1(id, a) == g[a] ++ RSum([b \in 1..3 |-> Entry(h, <<a, b>>) ** X(id)[b]])
      inside(m) == {id \in Cells(sh) : \A a \in 1..3 : id[a] >= m /\ id[a] <= sh[a] - 1 - m}
      s == R("1e-9") ** RMaxAbs(RSeq(e.after[1]))
  IN Clause("exact_1", \A id \in inside(1) : \A a \in 1..3 : RNear(At(e.after[2], sh, 3, id, a - 1), W1(id, a), s))
     \cup Clause("exact_2", \A id \in inside(2) : \A c \in 1..5 : RNear(At(e.after[3], sh, 5, id, c - 1), h[c], s))
ResultVerdict(e) ==
  Clause("potential", e.after[1] = e.pot)
  \cup Clause("field", IF e.field = "none" THEN TRUE ELSE e.after[2] = e.fieldlast)
  \cup Clause("origin", Len(e.origin) = 3 /\ \A a \in 1..3 : RClose(R(e.origin[a]), R(e.gorigin[a]), R("1e-13"), ROne))
  \cup Clause("spacing", e.spacing = e.step)
  \cup Clause("orders", Len(e.after) = MaxI(e.max, IF e.field = "none" THEN 1 ELSE 2))
\* A file lists its cells with the first axis fastest.
InFile(f, sh, id, c) == R(f.data[(((id[3] * sh[2] + id[2]) * sh[1] + id[1]) * f.nc) + c + 1])
VtkVerdict(e) ==
  LET has(n) == \E i \in 1..Len(e.file) : e.file[i].name = n
      arr(n) == e.file[CHOOSE i \in 1..Len(e.file) : e.file[i].name = n]
      same(q, n) == LET f == arr(n) IN \A id \in Cells(e.shape) : \A c \in 0..(f.nc - 1) :
                       REq(At(e.after[q], e.shape, f.nc, id, c), InFile(f, e.shape, id, c))
      given == IF has("field") THEN 2 ELSE 1
  IN Clause("orders", Len(e.after) = MaxI(e.max, given))
     \cup (IF Len(e.after) < given \/ \E n \in 1..given : e.ashape[n] # e.shape \o <<2 * n - 1>> THEN {"shapes"} ELSE
        Clause("potential", same(1, "potential")) \cup Clause("field", has("field") => same(2, "field")))
     \cup Clause("origin", \A a \in 1..3 : REq(R(e.gorigin[a]), R(e.origin[a])))
     \cup Clause("spacing", \A a \in 1..3 : REq(R(e.gspacing[a]), R(e.spacing[a])))
EqualVerdict(e) == Clause(e.what, e.a = e.b)

\* ---- P16 ---------------------------------------------------------------------
Coord(e, a, i) == R(e.center[a]) ++ (R(e.step[a]) ** (RI(i) -- (RI(e.shape[a] - 1) // RI(2))))
Tol(e) == R("1e-13") ** RMax(RMaxAbs(RSeq(e.center)), RSum([a \in 1..Len(e.shape) |-> RAbs(R(e.step[a])) ** RI(e.shape[a])]))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* index tuple of the q-th point (from 0), last axis fastest
RECURSIVE Unravel(_, _)
Unravel(q, sh) == IF sh = <<>> THEN <<>> ELSE LET m == Prod(Tail(sh)) IN <<q \div m>> \o Unravel(q % m, Tail(sh))
GridVerdict(e) ==
  LET d == Len(e.shape)  N == Prod(e.shape)  t == Tol(e) IN
  Clause("origin", Len(e.origin) = d /\ \A a \in 1..d : RNear(R(e.origin[a]), Coord(e, a, 0), t))
  \cup Clause("points", Len(e.points) = N /\ \A q \in 1..N : LET u == Unravel(q - 1, e.shape) IN
        Len(e.points[q]) = d /\ \A a \in 1..d : RNear(R(e.points[q][a]), Coord(e, a, u[a]), t))
  \cup Clause("mesh", e.mshape = <<d>> \o e.shape /\ Len(e.mesh) = d /\ \A a \in 1..d : Len(e.mesh[a]) = N /\
        \A q \in 1..N : RNear(R(e.mesh[a][q]), Coord(e, a, Unravel(q - 1, e.shape)[a]), t))
  \cup Clause("axes", Len(e.axes) = d /\ \A a \in 1..d : Len(e.axes[a]) = e.shape[a] /\
        \A i \in 1..e.shape[a] : RNear(R(e.axes[a][i]), Coord(e, a, i - 1), t))
  \cup Clause("slices", Len(e.slices) = d /\ \A a \in 1..d :
        /\ RNear(R(e.slices[a].start), Coord(e, a, 0), t)
        /\ RNear(R(e.slices[a].stop), Coord(e, a, e.shape[a] - 1), t)
        /\ R(e.slices[a].num) = RI(e.shape[a]))
\* e.idx: index vectors; e.coord their coordinates; e.back the way back
IndexVerdict(e) ==
  LET d == Len(e.shape) t == Tol(e)
      CoordR(a, i) == R(e.center[a]) ++ (R(e.step[a]) ** (i -- (RI(e.shape[a] - 1) // RI(2)))) IN
  Clause("coordinates", Len(e.coord) = Len(e.idx) /\ \A q \in 1..Len(e.idx) : Len(e.coord[q]) = d /\ \A a \in 1..d :
        RNear(R(e.coord[q][a]), CoordR(a, R(e.idx[q][a])), t ** RMax(ROne, RMaxAbs(RSeq(e.idx[q])))))
  \cup Clause("back", Len(e.back) = Len(e.idx) /\ \A q \in 1..Len(e.idx) : Len(e.back[q]) = d /\ \A a \in 1..d :
        RNear(R(e.back[q][a]), R(e.idx[q][a]), R("1e-13") ** ((RMaxAbs(RSeq(e.center)) // RAbs(R(e.step[a]))) ++ RI(e.shape[a]) ++ RMaxAbs(RSeq(e.idx[q])))))
  \cup Clause("shape", e.same)

Verdict(e) ==
  Clause("exception_" \o e.exc, e.exc = "no")
  \cup (IF e.exc # "no" THEN {} ELSE
        CASE e.kind = "interp" -> InterpVerdict(e)
          [] e.kind = "generate" -> GenVerdict(e)
          [] e.kind = "exact" -> ExactVerdict(e)
          [] e.kind = "vtk" -> VtkVerdict(e) \cup GenVerdict(e)
          [] e.kind = "result" -> ResultVerdict(e) \cup GenVerdict(e)
          [] e.kind = "grid" -> GridVerdict(e)
          [] e.kind = "index" -> IndexVerdict(e)
          [] e.kind = "equal" -> EqualVerdict(e))
Init == sc \in 1..TraceLen /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED sc /\ Report(sc, 1, Verdict(Trace[sc]))
Spec == Init /\ [][Next]_<<sc, k>>
=============================================================================
