------------------------------ MODULE TraceIn ------------------------------
(***************************************************************************)
(* A trace recorded from the implementation: a sequence of scenarios, one  *)
(* JSON object per line.  A scenario either is one event or has a sequence *)
(* `ev` of events that form a history.  The modules that judge traces have *)
(* the three variables sc (scenario), k (events consumed) and, for         *)
(* histories, st (the state of the specification).  Every event gets a     *)
(* total verdict, the set of the names of the clauses it violates; a       *)
(* non-empty one is printed and exploration continues, so one run reports  *)
(* every violation, and the number of distinct states proves that every    *)
(* event was consumed.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)

Report(s, e, v) == IF v = {} THEN TRUE ELSE PrintT(<<"FAIL", s, e, v>>)

\* The clause named n unless b holds.
Clause(n, b) == IF b THEN {} ELSE {n}
=============================================================================
