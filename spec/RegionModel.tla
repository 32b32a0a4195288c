---------------------------- MODULE RegionModel ----------------------------
(***************************************************************************)
(* Every layout of up to three electrodes on a small set of cells, under   *)
(* every history of region operations.  Checked: the laws of the algebra.  *)
(* Complete histories are printed for replay on the code.                  *)
(***************************************************************************)
EXTENDS RegionOps, Json
CONSTANTS Cells, Depth, Gen
VARIABLES ps, hist, init
Nm == {<<"a", "b", "a">>}

Mems == [1..Cells -> BOOLEAN]
Layouts == {[i \in 1..Len(nm) |-> El(nm[i], m[i])] : nm \in Nm, m \in [1..3 -> Mems]}
\* windows: half planes of the row of cells 1, 2 over 3, 4 ...
Windows == {[j \in 1..Cells |-> j <= w] : w \in 1..(Cells - 1)}
Ops == {[op |-> "remove_overlaps"], [op |-> "unify"], [op |-> "unify_by_name"], [op |-> "zero_gaps"]}
       \cup {[op |-> "restrict", g |-> w] : w \in Windows}
       \cup {[op |-> "filter_name", n |-> n] : n \in {"a"}}
Do(p, o) ==
  CASE o.op = "remove_overlaps" -> RemoveOverlaps(p)
    [] o.op \in {"unify", "zero_gaps"} -> Same(p)
    [] o.op = "unify_by_name" -> UnifyByName(p)
    [] o.op = "restrict" -> RestrictTo(p, o.g)
    [] o.op = "filter_name" -> Keep(p, {i \in 1..Len(p) : p[i].name = o.n /\ \E j \in 1..Cells : p[i].mem[j]})
Init == ps \in Layouts /\ hist = <<>> /\ init = ps
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : ps' = Do(ps, o) /\ hist' = Append(hist, o)
        /\ UNCHANGED init
        /\ (Gen /\ Len(hist') = Depth) => PrintT(<<"GEN", ToJson([init |-> init, ev |-> hist'])>>)
Spec == Init /\ [][Next]_<<ps, hist, init>>

Latest == hist[Len(hist)]
Laws ==
  hist # <<>> =>
   /\ Latest.op = "remove_overlaps" => Disjoint(ps)
   /\ Latest.op = "unify_by_name" => \A i, l \in 1..Len(ps) : ps[i].name = ps[l].name => i = l
   /\ Latest.op = "restrict" => \A j \in 1..Cells : Union(ps, j) => Latest.g[j]
   /\ Do(ps, Latest) = ps                       \* every operation is idempotent
Step == [][\/ hist'[Len(hist')].op \in {"restrict", "filter_name"}
           \/ \A j \in 1..Cells : Union(ps, j) = Union(ps', j)]_<<ps, hist, init>>
\* pads: everything is reported exactly once, whatever touches
Touch == [1..2 -> [1..3 -> BOOLEAN]]
ASSUME \A t \in Touch : LET r == Assign(t, 3) IN
   /\ Len(r) = 3 /\ {r[i][2] : i \in 1..3} = 1..3
   /\ \A i \in 1..3 : r[i][1] > 0 => t[r[i][1]][r[i][2]]
   /\ \A i, l \in 1..3 : (i < l /\ r[i][1] > 0 /\ r[l][1] > 0) => r[i][1] < r[l][1]
=============================================================================
