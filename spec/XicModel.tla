------------------------------ MODULE XicModel ------------------------------
(* All short layouts: every order of polygons, other records and blank     *)
(* lines, with every distribution of points over lines.                    *)
EXTENDS Xic, TLC, Json

CONSTANT Depth
VARIABLES st, lines, want, open
vars == <<st, lines, want, open>>

\* want: the polygons, counted independently: numbers of points per finished record
Init == st = Start /\ lines = <<>> /\ want = <<>> /\ open = 0

Line(l, np) ==
  /\ WellFormed(st, l)
  /\ st' = Read(st, l)
  /\ lines' = Append(lines, [t |-> l.t, n |-> np, end |-> l.end])
  /\ LET o == IF l.t = "poly" THEN np ELSE IF l.t = "cont" /\ st.cur = "poly" THEN open + np ELSE IF l.t = "other" THEN 0 ELSE open
         ispoly == l.t = "poly" \/ st.cur = "poly"
     IN /\ want' = IF l.end /\ ispoly THEN Append(want, o) ELSE want
        /\ open' = IF l.end THEN 0 ELSE o

Nums(k) == [i \in 1..2*k |-> 10 * Len(lines) + i]

Next == /\ Len(lines) < Depth
        /\ \E t \in {"poly", "other", "cont", "blank"}, np \in 0..2, end \in BOOLEAN :
              /\ t \in {"poly", "cont"} => np > 0
              /\ t \in {"other", "blank"} => np = 0
              /\ Line([t |-> t, n |-> Nums(np), end |-> end], np)
        /\ st'.cur = "none" => PrintT(<<"GEN", ToJson([lines |-> lines'])>>)
Spec == Init /\ [][Next]_vars

\* One polygon per finished polygon record, with all its points.
OnePerRecord == /\ Len(st.polys) = Len(want)
                /\ \A i \in 1..Len(want) : Len(st.polys[i]) = 2 * want[i]
\* Finished polygons never change.
AppendOnly == [][Len(st'.polys) >= Len(st.polys) /\ SubSeq(st'.polys, 1, Len(st.polys)) = st.polys]_vars
=============================================================================
