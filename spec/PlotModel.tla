----------------------------- MODULE PlotModel ------------------------------
(***************************************************************************)
(* All configurations of contour plots over small grids.  A plot is made   *)
(* value by value, row after row; once it is complete it shows every node  *)
(* of the section of the grid exactly once.                                *)
(***************************************************************************)
EXTENDS Plot, FiniteSets, TLC, Json

CONSTANT Sizes
VARIABLES slc, typ, shape, fill, given, shown, done
vars == <<slc, typ, shape, fill, given, shown, done>>
cfg == <<slc, typ, shape, fill, given>>

W == shape[Horizontal(slc)]
H == shape[Vertical(slc)]
At == 0        \* index of the section on its axis, written as 0

Init == /\ slc \in {"x", "y", "z"}
        /\ typ \in {"tot", "dc", "rf"}
        /\ shape \in [1..3 -> Sizes]
        /\ fill \in BOOLEAN
        /\ given \in BOOLEAN
        /\ shown = <<>>
        /\ done = FALSE

Value == /\ Len(shown) < W * H
         /\ LET n == Len(shown) IN
            shown' = Append(shown, PointOf(slc, At, (n % W) + 1, (n \div W) + 1))
         /\ UNCHANGED <<cfg, done>>
Finish == /\ Len(shown) = W * H /\ ~done
          /\ done' = TRUE
          /\ PrintT(<<"GEN", ToJson([slc |-> slc, typ |-> typ, shape |-> shape, fill |-> fill, given |-> given])>>)
          /\ UNCHANGED <<cfg, shown>>
Next == Value \/ Finish
Spec == Init /\ [][Next]_vars

Section == {p \in [1..3 -> 0..3] : /\ p[AxisNo(slc)] = At
                                   /\ p[Horizontal(slc)] \in 1..W
                                   /\ p[Vertical(slc)] \in 1..H}
InSection == \A i \in 1..Len(shown) : shown[i] \in Section
NoneTwice == \A i, j \in 1..Len(shown) : i # j => shown[i] # shown[j]
Complete == done => {shown[i] : i \in 1..Len(shown)} = Section
AxesDiffer == {AxisNo(slc), Horizontal(slc), Vertical(slc)} = 1..3 /\ Horizontal(slc) < Vertical(slc)
=============================================================================
