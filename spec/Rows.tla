-------------------------------- MODULE Rows --------------------------------
(***************************************************************************)
(* Rows of objectives: for each electrode the named derivative of its unit *)
(* response at a point, in a local frame whose axes are the columns of     *)
(* rot.  Electrodes are sums of harmonic exponentials (Harm), so that a    *)
(* derivative along any axes multiplies by the component of the vector a   *)
(* along them; names that follow from the Laplace equation need no special *)
(* treatment.                                                              *)
(* An objective is a record: [type: "pot", x, name: axes 0..2, rot: matrix *)
(* or <<>>] or [type: "multi", parts: sequence of [obj, w: weight or       *)
(* "None"]].                                                               *)
(***************************************************************************)
EXTENDS Harm

Axis(o, ax) == [j \in 1..3 |-> IF o.rot = <<>> THEN (IF j = ax + 1 THEN ROne ELSE RZero) ELSE R(o.rot[j][ax + 1])]
AxisDot(a, v) == CSum([j \in 1..3 |-> CScale(v[j], a[j])])
RECURSIVE ProdAxes(_, _, _)
ProdAxes(a, o, nm) == IF nm = <<>> THEN COne ELSE CMul(AxisDot(a, Axis(o, Head(nm))), ProdAxes(a, o, Tail(nm)))
PotEntry(el, o) ==
  LET prep == Prep(el.terms, RSeq(o.x)) IN
  RSum([i \in 1..Len(prep) |-> CMul(prep[i].v, ProdAxes(prep[i].a, o, o.name))[1]])
RECURSIVE Row(_, _)
Row(els, o) ==
  IF o.type = "pot" THEN TLCEval([j \in 1..Len(els) |-> PotEntry(els[j], o)])
  ELSE LET use == SelectSeq(o.parts, LAMBDA q : q.w # "None")
           rows == TLCEval([q \in 1..Len(use) |-> Row(els, use[q].obj)])
       IN  TLCEval([j \in 1..Len(els) |-> RSum([q \in 1..Len(use) |-> R(use[q].w) ** rows[q][j]])])
\* size of the entries before cancellation
RECURSIVE RowMag(_, _)
RowMag(els, o) ==
  IF o.type = "pot" THEN
     RSum([j \in 1..Len(els) |-> LET prep == Prep(els[j].terms, RSeq(o.x)) IN
        RSum([i \in 1..Len(prep) |-> CAbs(prep[i].v) ** RPow(RSqrt(RSum([c \in 1..3 |-> CAbs2(prep[i].a[c])])), Len(o.name))])])
  ELSE LET use == SelectSeq(o.parts, LAMBDA q : q.w # "None") IN
       RSum([q \in 1..Len(use) |-> RAbs(R(use[q].w)) ** RowMag(els, use[q].obj)])
=============================================================================
