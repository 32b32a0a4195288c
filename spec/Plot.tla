-------------------------------- MODULE Plot --------------------------------
(***************************************************************************)
(* What a contour plot of a plane section shows: the horizontal axis is    *)
(* the first of the two remaining coordinates, the vertical one the        *)
(* second, and the value at (h, v) is the potential at the point of the    *)
(* section with these coordinates.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Axes == <<"x", "y", "z">>
AxisNo(a) == CHOOSE i \in 1..3 : Axes[i] = a
Horizontal(slc) == IF slc = "x" THEN 2 ELSE 1
Vertical(slc) == IF slc = "z" THEN 2 ELSE 3
\* the point of the section `slc` at `at` with plot coordinates h, v
PointOf(slc, at, h, v) ==
  [c \in 1..3 |-> IF c = AxisNo(slc) THEN at ELSE IF c = Horizontal(slc) THEN h ELSE v]
=============================================================================
