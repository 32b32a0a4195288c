-------------------------------- MODULE Xic --------------------------------
(***************************************************************************)
(* Reading an XIC layout line by line.  A line is a record                 *)
(*   t    "poly"  starts a polygon record                                  *)
(*        "other" starts any other record                                  *)
(*        "cont"  continues the record before                              *)
(*        "blank"                                                          *)
(*   n    the numbers of the line, end whether the record ends here        *)
(* State: cur the record being read ("none", "poly", "other"), pts its     *)
(* numbers, polys the finished polygons.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Start == [cur |-> "none", pts |-> <<>>, polys |-> <<>>]

Finish(s) == IF s.cur = "poly" THEN [cur |-> "none", pts |-> <<>>, polys |-> Append(s.polys, s.pts)]
             ELSE [cur |-> "none", pts |-> <<>>, polys |-> s.polys]

Read(s, l) ==
  LET t == CASE l.t = "poly"  -> [s EXCEPT !.cur = "poly", !.pts = l.n]
             [] l.t = "other" -> [s EXCEPT !.cur = "other", !.pts = <<>>]
             [] l.t = "cont" /\ s.cur = "poly" -> [s EXCEPT !.pts = @ \o l.n]
             [] OTHER -> s
  IN IF l.end THEN Finish(t) ELSE t

\* Well formed: continuations and ends belong to a record.
WellFormed(s, l) == /\ l.t = "cont" => s.cur # "none"
                    /\ l.t \in {"poly", "other"} => s.cur = "none"
                    /\ l.t = "blank" => ~l.end
=============================================================================
