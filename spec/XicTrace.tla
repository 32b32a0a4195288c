------------------------------ MODULE XicTrace ------------------------------
(* The parser's result on rendered layouts: P40.                           *)
EXTENDS Xic, TraceIn, Num

VARIABLES sc, k, st
T == Trace[sc]

\* rows of two coordinates, in metres
Same(p, q) == /\ Len(p) = 2 * Len(q)
              /\ \A i \in 1..Len(q) : /\ Len(q[i]) = 2
                   /\ \A c \in 1..2 : LET w == R(p[2 * (i - 1) + c]) ** R("1e-8")
                                      IN RClose(R(q[i][c]), w, R("1e-14"), R("1e-30"))

Final(s) ==
  Clause("unexpected_exception", T.exc = "no")
  \cup (IF T.exc # "no" THEN {} ELSE
    Clause("number_of_polygons", Len(T.out) = Len(s.polys))
    \cup Clause("points", Len(T.out) # Len(s.polys) \/ \A i \in 1..Len(s.polys) : Same(s.polys[i], T.out[i])))

Init == sc \in 1..TraceLen /\ k = 0 /\ st = Start
Next == /\ k < Len(T.ev)
        /\ st' = Read(st, T.ev[k + 1])
        /\ (k + 1 = Len(T.ev) => Report(sc, k + 1, Final(st')))
        /\ k' = k + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_<<sc, k, st>>
=============================================================================
