---------------------------- MODULE SystemTrace ----------------------------
(* Potentials of a System: P03 (superposition), P04 (pseudopotential). *)
EXTENDS Harm, Pseudo, TraceIn
VARIABLES sc, k

\* ---- P03 -------------------------------------------------------------------
\* e.units[electrode][point][component]
Weighted(e, v, p, c) == RSum([j \in 1..Len(v) |-> v[j] ** R(e.units[j][p][c])])
Size(e, v) == RSum([j \in 1..Len(v) |-> RAbs(v[j]) ** RMaxAbs([p \in 1..Len(e.units[j]) |-> RMaxAbs(RSeq(e.units[j][p]))])])
SumVerdict(e) ==
  LET dc == RSeq(e.dc) rf == RSeq(e.rf)
      np == e.np  nc == 2 * e.n + 1
      tdc == R("1e-12") ** RMax(R("1e-290"), Size(e, dc))
      trf == R("1e-12") ** RMax(R("1e-290"), Size(e, rf))
      Dc(p, c) == Weighted(e, dc, p, c)
      Rf(p, c) == Weighted(e, rf, p, c)
      Is(x, Want(_, _), tol) == /\ Len(x) = np
                           /\ \A p \in 1..np : /\ Len(x[p]) = nc
                                               /\ \A c \in 1..nc : RNear(R(x[p][c]), Want(p, c), tol)
      cost == RCos(R(e.t))
      Time(p, c) == Dc(p, c) ++ (cost ** Rf(p, c))
      Exp(x, Want(_, _), tol) == Len(x) = np /\ \A p \in 1..np :
          LET r == TLCEval([c \in 1..nc |-> Want(p, c)]) IN
          /\ Len(x[p]) = Len(Flat(e.n))
          /\ \A i \in 1..Len(Flat(e.n)) : RNear(R(x[p][i]), Entry(r, Flat(e.n)[i]), RI(2) ** tol)
  IN Clause("dc_sum", Is(e.edc, Dc, tdc))
     \cup Clause("rf_sum", Is(e.erf, Rf, trf))
     \cup Clause("electrode_order", Is(e.perm, Dc, tdc))
     \cup Clause("point_by_point", Is(e.single, Dc, tdc))
     \cup Clause("time", Is(e.time, Time, tdc ++ trf))
     \cup Clause("expanded_dc", Exp(e.xdc, Dc, tdc))
     \cup Clause("expanded_rf", Exp(e.xrf, Rf, trf))
     \cup Clause("expanded_time", Exp(e.xtime, Time, tdc ++ trf))
     \cup Clause("individual", Len(e.ind) = Len(e.units) /\ \A j \in 1..Len(e.units) :
            Len(e.ind[j]) = np /\ \A p \in 1..np :
              Len(e.ind[j][p]) = nc /\ \A c \in 1..nc :
                RNear(R(e.ind[j][p][c]), R(e.units[j][p][c]), R("1e-10") ** RMax(R("1e-290"), RMaxAbs(RSeq(e.units[j][p]))) ))

\* ---- P04 -------------------------------------------------------------------
\* The electrodes are sums of harmonic exponentials; e.els[j]: [dc, rf, terms].
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
Scaled(e, which) == Concat([j \in 1..Len(e.els) |->
   LET v == R(IF which = "dc" THEN e.els[j].dc ELSE e.els[j].rf) IN
   [i \in 1..Len(e.els[j].terms) |-> [v |-> v, t |-> e.els[j].terms[i]]]])
TableOf(e, which, x, n) ==
   LET s == Scaled(e, which)
       prep == TLCEval([i \in 1..Len(s) |-> LET q == Prep(<<s[i].t>>, x)[1] IN [a |-> q.a, v |-> CScale(s[i].v, q.v)]])
   IN  Table(prep, n)
\* the same from recorded reduced tensors (real electrodes): e.raw[point][order+1]
RawTable(raw, n) == TLCEval([d \in 0..n |-> [m \in Multis(d) |-> Entry(RSeq(raw[d + 1]), Tup(m))]])

TabSize(f, n) == RMax(R("1e-290"), RSum([d \in 1..n |-> LET s == SetToSeq(Multis(d)) IN RMaxAbs([i \in 1..Len(s) |-> f[d][s[i]]])]))
PseudoVerdict(e) ==
  LET n == e.n  kk == R(e.scale) IN
  Clause("shape", e.shape = <<Len(e.x)>> \o [i \in 1..n |-> 3])
  \cup UNION {
    LET x == RSeq(e.x[p])
        f == IF e.raw THEN RawTable(e.rfraw[p], n + 1) ELSE TableOf(e, "rf", x, n + 1)
        g == IF e.raw THEN RawTable(e.dcraw[p], n) ELSE TableOf(e, "dc", x, n)
        ps == PseudoTable(f, n, kk)
        fs == TabSize(f, n + 1)
        gs == TabSize([d \in 1..1 |-> g[n]], 0) ++ RMaxAbs([i \in 1..Len(Flat(n)) |-> g[n][Multi(Flat(n)[i])]])
        tdc == R("1e-11") ** gs
        trf == R("1e-11") ** (R("1e-290") ++ (kk ** kk ** fs ** fs))
        Is(a, W(_), tol) == Len(a) = Len(Flat(n)) /\ \A i \in 1..Len(Flat(n)) : RNear(R(a[i]), W(Multi(Flat(n)[i])), tol)
        Dc(m) == g[n][m]
        Rf(m) == ps[m]
        Tot(m) == g[n][m] ++ ps[m]
    IN  Clause("pseudo", Is(e.pseudo[p], Rf, trf)) \cup Clause("rf", Is(e.rf[p], Rf, trf))
        \cup Clause("dc", Is(e.dc[p], Dc, tdc)) \cup Clause("total", Is(e.tot[p], Tot, tdc ++ trf))
        \cup Clause("default_is_total", Is(e.def[p], Tot, tdc ++ trf))
    : p \in 1..Len(e.x)}
ScaleVerdict(e) ==
  LET want == RSqrt(R(e.q) // R(e.m)) // (RI(2) ** R(e.l) ** R(e.o)) IN
  Clause("scale", RClose(R(e.got), want, R("1e-13"), R("1e-290")) /\ RClose(R(e.attr), want, R("1e-13"), R("1e-290")))
RefuseVerdict(e) == Clause("refused", e.raised = e.want)

Verdict(e) ==
  Clause("exception_" \o e.exc, e.exc = "no")
  \cup (IF e.exc # "no" THEN {} ELSE
        CASE e.kind = "sum" -> SumVerdict(e)
          [] e.kind = "pseudo" -> PseudoVerdict(e)
          [] e.kind = "scale" -> ScaleVerdict(e)
          [] e.kind = "refuse" -> RefuseVerdict(e))
Init == sc \in 1..TraceLen /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED sc /\ Report(sc, 1, Verdict(Trace[sc]))
Spec == Init /\ [][Next]_<<sc, k>>
=============================================================================
