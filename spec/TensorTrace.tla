---------------------------- MODULE TensorTrace ----------------------------
(* Events of the tensor utilities: P05, P06, P07. *)
EXTENDS Tensor, SphHarm, TraceIn

VARIABLES sc, k

Eps == R("2e-14")
\* agreement up to rounding of numbers of the size of `scale`
Same(a, b, scale) == RNear(a, b, Eps ** RMax(scale, R("1e-290")))

\* ---- P05: names ----------------------------------------------------------
Axis(ch) == CASE ch = 0 -> 1 [] ch = 1 -> 2 [] ch = 2 -> 3
One(t) == [i \in 1..Len(t) |-> t[i] + 1]     \* 0-based axes of the code
NIdx(t) == LET RECURSIVE V(_) V(u) == IF u = <<>> THEN 0 ELSE V(SubSeq(u, 1, Len(u) - 1)) * 3 + (u[Len(u)] - 1) IN V(t)
\* the pairs completing a trace with t, as sets of two sorted tuples
Laplace(t) == LET m == Multi(t) IN
  {{Tup(Pair(m, a)[1]), Tup(Pair(m, a)[2])} : a \in {a \in 1..3 : m[a] >= 2}}
NamesVerdict(e) ==
  LET t == One(e.t)
      u == Rule(Multi(t))
  IN  Clause("name_to_idx", One(e.n2i) = t)
      \cup Clause("idx_to_name", One(e.i2n) = Sorted(t))
      \cup Clause("idx_to_nidx", e.nidx = NIdx(t))
      \cup Clause("find_laplace", {{One(e.lap[i][1]), One(e.lap[i][2])} : i \in 1..Len(e.lap)} = Laplace(t))
      \cup Clause("deriv_to_reduced_idx",
             /\ e.red.sign = u.sign
             /\ {e.red.of[i] + 1 : i \in 1..Len(e.red.of)} = {u.of[i] : i \in 1..Len(u.of)}
             /\ Len(e.red.of) = Len(u.of))
ComponentVerdict(e) ==   \* component number e.i of order e.n
  LET t == Comps(e.n)[e.i + 1]
      low == IF e.n = 0 THEN <<>> ELSE Comps(e.n - 1)[e.cd.i + 1]
  IN  Clause("deriv_to_name", One(e.name) = t)
      \cup Clause("name_to_deriv", e.back = <<e.n, e.i>>)
      \cup (IF e.n = 0 THEN {} ELSE
            Clause("construct_derivative", e.cd.n = e.n - 1 /\ Sorted(low \o <<e.cd.a + 1>>) = t))

\* ---- P05: expand and select ---------------------------------------------
\* e.c: sequence of reduced tensors (batch flattened), e.d: of flat tensors
ExpandVerdict(e) ==
  Clause("shape", e.shape = e.batch \o (IF e.n = 0 THEN <<>> ELSE [i \in 1..e.n |-> 3]) \/ (e.n = 1 /\ e.shape = e.batch \o <<3>>))
  \cup Clause("batch", Len(e.d) = Len(e.c))
  \cup (IF Len(e.d) # Len(e.c) THEN {} ELSE
  UNION {LET r == RSeq(e.c[b]) d == RSeq(e.d[b]) s == RMaxAbs(r) IN
         Clause("expand", Len(d) = Len(Flat(e.n)) /\
           \A i \in 1..Len(Flat(e.n)) : Same(d[i], Entry(r, Flat(e.n)[i]), s)) : b \in 1..Len(e.c)})
SelectVerdict(e) ==
  Clause("shape", e.shape = e.batch \o <<2 * e.n + 1>>)
  \cup Clause("batch", Len(e.d) = Len(e.c))
  \cup (IF Len(e.d) # Len(e.c) THEN {} ELSE
  UNION {LET f == RSeq(e.c[b]) d == RSeq(e.d[b]) IN
         Clause("select", Len(d) = 2 * e.n + 1 /\
           \A i \in 1..(2 * e.n + 1) : REq(d[i], f[NIdx(Comps(e.n)[i]) + 1])) : b \in 1..Len(e.c)})

\* ---- P06: rotation --------------------------------------------------------
\* contract index number p (1 = first) of the flat rank-n tensor f with r
Strides(n, p) == LET RECURSIVE Pw(_) Pw(q) == IF q = 0 THEN 1 ELSE 3 * Pw(q - 1) IN Pw(n - p)
Contract(f, n, p, r) ==
  LET st == Strides(n, p) IN
  TLCEval([i \in 1..Len(f) |->
    LET z == i - 1
        j == (z \div st) % 3
        base == z - j * st
    IN  RSum([q \in 1..3 |-> f[base + (q - 1) * st + 1] ** r[q][j + 1]])])
RECURSIVE ContractAll(_, _, _, _)
ContractAll(f, n, p, r) == IF p > n THEN f ELSE ContractAll(Contract(f, n, p, r), n, p + 1, r)
RotVerdict(e) ==
  LET r == [i \in 1..3 |-> RSeq(e.r[i])]
      rs == RMax(ROne, RMaxAbs(r[1]) ++ (RMaxAbs(r[2]) ++ RMaxAbs(r[3])))
  IN Clause("shape", e.shape = e.inshape)
     \cup UNION {LET f == RSeq(e.c[b]) d == RSeq(e.d[b]) g == ContractAll(f, e.n, 1, r) IN
          Clause("rotate", Len(d) = Len(g) /\
            \A i \in 1..Len(g) : RNear(d[i], g[i], R("1e-13") ** RMaxAbs(f) ** RPow(rs, e.n))) : b \in 1..Len(e.c)}
\* relations between calls: e.a and e.b must agree to rounding of e.scale
EqVerdict(e) ==
  LET a == RSeq(e.a) b == RSeq(e.b) IN
  Clause(e.what, Len(a) = Len(b) /\ \A i \in 1..Len(a) : RNear(a[i], b[i], R(e.tol) ** RMax(R("1e-290"), RMaxAbs(b))))

\* ---- P07: spherical harmonics ----------------------------------------------
\* e.c: per point the reduced tensor of order l; e.d: per point 2l+1 coefficients
SphVerdict(e) ==
  UNION {LET r == RSeq(e.c[b]) d == RSeq(e.d[b]) s == RMaxAbs(r) l == e.n IN
     Clause("taylor", Len(d) = 2 * l + 1 /\
       \A q \in 1..Len(Dirs) :
          RNear(RSum([i \in 1..(2 * l + 1) |-> d[i] ** YReal(l, i - l - 1, Dirs[q])]),
                Along(r, l, Dirs[q]) // RFact(l), R("1e-13") ** s)) : b \in 1..Len(e.c)}
  \cup Clause("batch", Len(e.c) = Len(e.d))

Verdict(e) ==
  Clause("exception_" \o e.exc, e.exc = "no")
  \cup (IF e.exc # "no" THEN {} ELSE
        Clause("input_changed", ~e.changed)
        \cup CASE e.kind = "names" -> NamesVerdict(e)
               [] e.kind = "component" -> ComponentVerdict(e)
               [] e.kind = "expand" -> ExpandVerdict(e)
               [] e.kind = "select" -> SelectVerdict(e)
               [] e.kind = "rotate" -> RotVerdict(e)
               [] e.kind = "equal" -> EqVerdict(e)
               [] e.kind = "spherical" -> SphVerdict(e))

Init == sc \in 1..TraceLen /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED sc /\ Report(sc, 1, Verdict(Trace[sc]))
Spec == Init /\ [][Next]_<<sc, k>>
=============================================================================
