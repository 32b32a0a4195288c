---------------------------- MODULE AdjustTrace ----------------------------
(***************************************************************************)
(* Histories of the real `Adjust` on real systems (P39).  The transitions  *)
(* are those of AdjustModel with real voltages; a proposal must solve the  *)
(* force or position equations.                                            *)
(*                                                                         *)
(* State: v     voltages on the electrodes                                 *)
(*        hist  per electrode its history                                  *)
(*        g     group (1..3, 0: none) of each electrode                    *)
(*        xm, curve, curve0, basis, nx   last minimum, curvatures, modes   *)
(*        pend  pending proposal                                           *)
(***************************************************************************)
EXTENDS TraceIn, Num, SequencesExt, FiniteSets

VARIABLES sc, k, st

No == [has |-> FALSE, dv |-> <<>>, xm |-> <<>>, curve |-> <<>>]
LastOf(s) == [i \in 1..Len(s.hist) |-> s.hist[i][Len(s.hist[i])]]
V3(s) == RSeq(s)
Tiny == R("1e-12")

\* target voltages of a change dv (numbers) from the last accepted ones
Target(s, dv) == [i \in 1..Len(s.v) |->
   IF s.g[i] = 0 THEN R(s.v[i]) ELSE R(LastOf(s)[i]) ++ dv[s.g[i]]]
Saved(s, dv) == [i \in 1..Len(s.v) |->
   IF s.g[i] = 0 THEN R(LastOf(s)[i]) ELSE R(LastOf(s)[i]) ++ dv[s.g[i]]]

NearV(obs, want) == \A i \in 1..Len(want) : RClose(R(obs[i]), want[i], Tiny, ROne)

\* ---- the equations ------------------------------------------------------
\* part[i]: gradient of electrode i at the evaluation point
Field(s, e, dv) == [a \in 1..3 |->
   RSum([i \in 1..Len(s.v) |-> IF s.g[i] = 0 THEN RZero ELSE dv[s.g[i]] ** R(e.part[i][a])])]
FieldScale(s, e, dv) == [a \in 1..3 |->
   RSum([i \in 1..Len(s.v) |-> IF s.g[i] = 0 THEN RZero ELSE RAbs(dv[s.g[i]] ** R(e.part[i][a]))])]

Solves(s, e, dv) ==
  LET d == R(e.dis) // R(e.l)
      ax == V3(s.basis[e.axis])
      at == IF e.method = "force" THEN V3(s.xm) ELSE [a \in 1..3 |-> R(s.xm[a]) ++ (d ** ax[a])]
      c == R((IF e.same THEN s.curve0 ELSE s.curve)[e.axis])
      want == IF e.method = "force" THEN [a \in 1..3 |-> c ** d ** ax[a]]
              ELSE [a \in 1..3 |-> RNeg(R(e.gt[a]))]
      f == Field(s, e, dv)
      fs == FieldScale(s, e, dv)
      tol == R("1e-9") ** (RMaxAbs(fs) ++ RMaxAbs(want) ++ R("1e-9"))
  IN /\ \A a \in 1..3 : RNear(R(e.at[a]), at[a], R("1e-12") ** (ROne ++ RAbs(at[a])))
     /\ \A a \in 1..3 : RNear(f[a], want[a], tol)

\* ---- minimum and modes --------------------------------------------------
Mat(h) == [a \in 1..3 |-> RSeq(h[a])]
MV(h, x) == [a \in 1..3 |-> RDot(h[a], x)]

\* x is a minimum: the gradient there is what a displacement below the
\* search's tolerance makes.
AtMinimum(e) == \A a \in 1..3 : RLe(RAbs(R(e.gn[a])), R("1e-4") ** RMaxAbs([b \in 1..3 |-> RMaxAbs(Mat(e.hn)[b])]))

Modes(h, lam, vec) ==
  LET H == Mat(h)
      sc1 == RMaxAbs([b \in 1..3 |-> RMaxAbs(H[b])])
  IN /\ \A i \in 1..3 : LET v == RSeq(vec[i]) hv == MV(H, v) IN
          /\ RNear(RDot(v, v), ROne, R("1e-9"))
          /\ \A a \in 1..3 : RNear(hv[a], R(lam[i]) ** v[a], R("1e-8") ** sc1)
     /\ \A i, j \in 1..3 : i < j => RNear(RDot(RSeq(vec[i]), RSeq(vec[j])), RZero, R("1e-8"))

\* Modes follow the basis: where a mode is clearly one of the basis, it has its place and sign.
Follow(s, vec) == \A i, j \in 1..3 :
   LET o == RDot(RSeq(s.basis[i]), RSeq(vec[j])) IN
   RLt(R("0.8"), RAbs(o)) => (i = j /\ RLt(RZero, o))

Report5(s, e) ==
  Clause("minimum", AtMinimum(e))
  \cup Clause("modes", Modes(e.hn, e.curve, e.vec) /\ Follow(s, e.vec))
  \cup Clause("offset", \A a \in 1..3 : RNear(R(e.off[a]), R(e.xm[a]) -- R(s.xm[a]), R("1e-12")))
  \cup Clause("frequency_change", \A i \in 1..3 :
         RNear(R(e.dfreq[i]), RSqrt(R(e.curve[i])) -- RSqrt(R(s.curve0[i])), R("1e-9") ** (ROne ++ RSqrt(R(s.curve0[i])))))

\* ---- transitions --------------------------------------------------------
Refused(s, e) == [v |-> Clause("unchanged", e.obs.v = s.v /\ e.obs.hist = s.hist), s |-> s]

Same(s, e) ==
  Clause("history", e.obs.hist = s.hist)
  \cup Clause("records", e.obs.nx = s.nx /\ e.obs.nc = s.nx /\ e.obs.xm = s.xm /\ e.obs.curve = s.curve)

Step(s, e) ==
  CASE e.op = "init" ->
         [v |-> Clause("minimum", IF e.given THEN e.xm = e.xm0 ELSE AtMinimum(e))
                \cup Clause("modes", Modes(e.hn, e.curve, e.basis))
                \cup Clause("mode_order",
                       IF e.order = <<>> THEN RLe(R(e.basis[2][1]), R(e.basis[1][1])) /\ RLe(R(e.basis[3][1]), R(e.basis[2][1]))
                       ELSE \A i, j \in 1..3 : e.order[i] < e.order[j] => RLe(R(e.curve[i]), R(e.curve[j])))
                \cup Clause("axes", e.check = e.basis /\ e.names = <<"axial", "radial1", "radial2">>)
                \cup Clause("records", e.obs.nx = 1 /\ e.obs.nc = 1 /\ e.obs.xm = e.xm /\ e.obs.curve = e.curve)
                \cup Clause("history", e.obs.hist = s.hist /\ e.obs.v = s.v),
          s |-> [s EXCEPT !.xm = e.xm, !.curve = e.curve, !.curve0 = e.curve, !.basis = e.basis, !.nx = 1, !.g = e.g, !.pend = No]]
    [] e.op = "set" ->
         LET w == [i \in 1..Len(s.v) |-> IF e.config[i] = "" THEN s.v[i] ELSE e.config[i]]
             h == IF ~e.save THEN s.hist
                  ELSE [i \in 1..Len(s.v) |-> Append(s.hist[i], IF e.config[i] = "" THEN LastOf(s)[i] ELSE e.config[i])]
         IN [v |-> Clause("voltages", e.obs.v = w) \cup Same([s EXCEPT !.hist = h], e),
             s |-> [s EXCEPT !.v = w, !.hist = h]]
    [] e.op = "propose" ->
         LET dv == RSeq(e.dv) IN
         [v |-> Clause("equations", Solves(s, e, dv))
                \cup Clause("voltages", NearV(e.obs.v, Target(s, dv)))
                \cup Report5(s, e) \cup Same(s, e),
          s |-> [s EXCEPT !.v = e.obs.v, !.pend = [has |-> TRUE, dv |-> e.dv, xm |-> e.xm, curve |-> e.curve]]]
    [] e.op = "whatif" ->
         [v |-> Clause("voltages", NearV(e.obs.v, Target(s, RSeq(e.dv)))) \cup Report5(s, e) \cup Same(s, e),
          s |-> [s EXCEPT !.v = e.obs.v]]
    [] e.op = "change" ->     \* volt_change alone only computes
         [v |-> Clause("equations", Solves(s, e, RSeq(e.dv))) \cup Clause("unchanged", e.obs.v = s.v) \cup Same(s, e), s |-> s]
    [] e.op = "accept" /\ e.user = FALSE /\ ~s.pend.has ->
         [v |-> Clause("unchanged", e.obs.v = s.v) \cup Same(s, e), s |-> s]
    [] e.op = "accept" ->
         LET dv == RSeq(IF e.user THEN e.dv ELSE s.pend.dv)
             h == e.obs.hist
         IN [v |-> Clause("voltages", NearV(e.obs.v, Target(s, dv)))
                   \cup Clause("history", /\ \A i \in 1..Len(s.v) : /\ Len(h[i]) = Len(s.hist[i]) + 1
                                                                    /\ SubSeq(h[i], 1, Len(s.hist[i])) = s.hist[i]
                                          /\ NearV([i \in 1..Len(s.v) |-> h[i][Len(h[i])]], Saved(s, dv)))
                   \cup Clause("records", e.obs.nx = s.nx + 1 /\ e.obs.nc = s.nx + 1)
                   \cup (IF e.user
                         THEN Clause("minimum", AtMinimum(e)) \cup Clause("modes", Modes(e.hn, e.obs.curve, e.vec) /\ Follow(s, e.vec))
                         ELSE Clause("records", NearV(e.obs.xm, RSeq(s.pend.xm)) /\ NearV(e.obs.curve, RSeq(s.pend.curve)))),
             s |-> [s EXCEPT !.v = e.obs.v, !.hist = h, !.nx = @ + 1, !.xm = e.obs.xm, !.curve = e.obs.curve, !.pend = No]]
    [] e.op = "reject" ->
         [v |-> Clause("restored", e.obs.v = LastOf(s)) \cup Same(s, e),
          s |-> [s EXCEPT !.v = LastOf(s), !.pend = No]]
    [] OTHER -> [v |-> {"unknown_operation"}, s |-> s]

Judge(s, e) ==
  IF e.must THEN   \* no solution exists: has to be refused
    [v |-> Clause("must_raise", e.exc # "no") \cup Clause("unchanged", e.obs.v = s.v) \cup Same(s, e), s |-> s]
  ELSE IF e.exc # "no" /\ ~(e.op = "accept" /\ ~e.user /\ ~s.pend.has)
    THEN [v |-> {"unexpected_exception"}, s |-> s]
  ELSE LET j == Step(s, e) IN
    [j EXCEPT !.v = @ \cup Clause("rf_untouched", e.obs.rf = Trace[sc].rf)]

Init == /\ sc \in 1..TraceLen /\ k = 0
        /\ st = [v |-> Trace[sc].v, hist |-> [i \in 1..Len(Trace[sc].v) |-> <<Trace[sc].v[i]>>],
                 g |-> <<>>, xm |-> <<>>, curve |-> <<>>, curve0 |-> <<>>, basis |-> <<>>, nx |-> 0, pend |-> No]
Next == /\ k < Len(Trace[sc].ev)
        /\ LET e == Trace[sc].ev[k + 1]
               j == TLCEval(Judge(st, e))
           IN Report(sc, k + 1, j.v) /\ st' = j.s
        /\ k' = k + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_<<sc, k, st>>
=============================================================================
