----------------------------- MODULE AdaptModel -----------------------------
(***************************************************************************)
(* Adaptive refinement, abstractly.  A round is a mesh of n triangles in a *)
(* strip (triangle i meets i-1 and i+1; the ends have a border) and a      *)
(* level of potential for each; levels that differ by more than 1 are a    *)
(* jump.  The rounds end with the first mesh of more than Limit triangles, *)
(* which is not used.                                                      *)
(* want  per round the triangles to be made smaller in the next            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Rounds, Limit
VARIABLES log, want, done
vars == <<log, want, done>>
Levels == {0, 1, 2}
Dist(a, b) == IF a < b THEN b - a ELSE a - b
Near(i, j) == i - j \in {-1, 1}
Refine(u) == {i \in 1..Len(u) : \E j \in 1..Len(u) : Near(i, j) /\ Dist(u[i], u[j]) > 1}
Init == log = <<>> /\ want = <<>> /\ done = FALSE
Use == /\ ~done /\ Len(log) < Rounds
       /\ \E n \in 1..Limit : \E u \in [1..n -> Levels] :
            /\ n # 2 \/ log = <<>>
            /\ log' = Append(log, u) /\ want' = Append(want, Refine(u))
       /\ UNCHANGED done
Stop == /\ ~done /\ done' = TRUE /\ UNCHANGED <<log, want>>
        /\ PrintT(<<"GEN", ToJson([ev |-> log, limit |-> Limit])>>)
Next == Use \/ Stop
Spec == Init /\ [][Next]_vars
\* Where nothing jumps nothing is refined, wherever the border is.
Calm == \A r \in 1..Len(log) : (\A i \in 1..Len(log[r]) : log[r][i] # 2) => want[r] = {}
\* Jumps are seen from both sides.
Both == \A r \in 1..Len(log) : Cardinality(want[r]) # 1
\* A single triangle has nothing to differ from.
Alone == \A r \in 1..Len(log) : Len(log[r]) = 1 => want[r] = {}
=============================================================================
