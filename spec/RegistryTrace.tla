--------------------------- MODULE RegistryTrace ---------------------------
(* Histories of a real `System` against TrapSystem: P01, P02.              *)
EXTENDS TrapSystem, TraceIn

VARIABLES sc, k, st

Observed(e, s) ==
    Clause("names", e.obs.names = Field(s.els, "name"))
    \cup Clause("dcs", e.obs.dcs = Field(s.els, "dc"))
    \cup Clause("rfs", e.obs.rfs = Field(s.els, "rf"))
    \cup Clause("identity", e.obs.order = [i \in 1..Len(s.els) |-> s.els[i].id])
    \cup UNION {Clause("lookup_int", e.obs.li[j].r = LookInt(s.els, e.obs.li[j].k)) : j \in 1..Len(e.obs.li)}
    \cup UNION {Clause("lookup_name", e.obs.ln[j].r = LookName(s.els, e.obs.ln[j].k)) : j \in 1..Len(e.obs.ln)}

Verdict(s, e) ==
  LET t == Apply(s, e)
  IN  Observed(e, t)
      \cup Clause("must_raise", Legal(s, e) \/ e.exc # "no")
      \cup Clause("unexpected_exception", ~Legal(s, e) \/ e.exc = "no" \/ (e.op = "exit" /\ e.how = "raise" /\ e.exc = "Boom"))
      \cup (IF e.op = "exit" /\ e.how = "raise" THEN Clause("body_exception_propagates", e.exc = "Boom") ELSE {})

Init == /\ sc \in 1..TraceLen /\ k = 0
        /\ st = [els |-> Trace[sc].init, stack |-> <<>>]
Next == /\ k < Len(Trace[sc].ev)
        /\ LET e == Trace[sc].ev[k + 1]
           IN Report(sc, k + 1, Verdict(st, e)) /\ st' = Apply(st, e)
        /\ k' = k + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_<<sc, k, st>>
=============================================================================
