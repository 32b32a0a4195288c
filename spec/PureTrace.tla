----------------------------- MODULE PureTrace -----------------------------
(***************************************************************************)
(* Histories of queries and assignments on systems of real electrodes      *)
(* against TrapSystem (P38).                                               *)
(*                                                                         *)
(* An electrode of the state also has its geometry, a record from          *)
(* attribute names to values; a system also has its rf coefficient.  The   *)
(* state remembers every answer with the state it was given in: the same   *)
(* question in the same state must have the same answer, however many      *)
(* queries and assignments lie between, and the answer must be that of a   *)
(* system built afresh.                                                    *)
(***************************************************************************)
EXTENDS TrapSystem, TraceIn, Num

VARIABLES sc, k, st

Sys(s) == [els |-> s.els, stack |-> s.stack]

ApplyP(s, e) ==
  CASE e.op = "geo"     -> [s EXCEPT !.els[e.i].geo[e.a] = e.v]
    [] e.op = "rfscale" -> [s EXCEPT !.rfc = e.rfc]
    [] e.op = "query"   ->
         [s EXCEPT !.memo = Append(@, [q |-> e.q, els |-> s.els, rfc |-> s.rfc, ans |-> e.ans])]
    [] OTHER            -> LET t == Apply(Sys(s), e) IN [s EXCEPT !.els = t.els, !.stack = t.stack]

Observed(e, s) ==
    Clause("names", e.obs.names = Field(s.els, "name"))
    \cup Clause("dcs", e.obs.dcs = Field(s.els, "dc"))
    \cup Clause("rfs", e.obs.rfs = Field(s.els, "rf"))
    \cup Clause("membership", e.obs.order = Field(s.els, "id"))
    \cup Clause("geometry", e.obs.geo = Field(s.els, "geo"))
    \cup Clause("rf_coeff", e.obs.rfc = s.rfc)

\* Answers agree: the same outcome, and numbers to a relative tolerance
\* (whatever is no number must be no number in both).
Agree(a, b, tol) ==
  /\ a.kind = b.kind
  /\ Len(a.vals) = Len(b.vals)
  /\ a.vals = b.vals \/
     LET t == R(tol)
         u == [i \in 1..Len(a.vals) |-> R(a.vals[i])]
         v == [i \in 1..Len(b.vals) |-> R(b.vals[i])]
         f == SelectSeq(u, RFin)
         scale == RMax(R("1e-30"), RMaxAbs(f))
     IN \A i \in 1..Len(u) : a.vals[i] = b.vals[i] \/ RNear(u[i], v[i], t ** scale)

Query(s, e) ==
  Clause("arguments", e.before = e.after)
  \cup Clause("repeatable", \A i \in 1..Len(s.memo) :
         (s.memo[i].q = e.q /\ s.memo[i].els = s.els /\ s.memo[i].rfc = s.rfc) => Agree(s.memo[i].ans, e.ans, e.tol))
  \cup Clause("history_independent", Agree(e.ans, e.twin, e.tol))
  \cup Clause("answers", e.ans.kind # "Timeout")

Verdict(s, e) == Observed(e, ApplyP(s, e)) \cup (IF e.op = "query" THEN Query(s, e) ELSE {})

Init == /\ sc \in 1..TraceLen /\ k = 0
        /\ st = [els |-> Trace[sc].init, stack |-> <<>>, rfc |-> Trace[sc].rfc, memo |-> <<>>]
Next == /\ k < Len(Trace[sc].ev)
        /\ LET e == Trace[sc].ev[k + 1]
           IN Report(sc, k + 1, Verdict(st, e)) /\ st' = ApplyP(st, e)
        /\ k' = k + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_<<sc, k, st>>
=============================================================================
