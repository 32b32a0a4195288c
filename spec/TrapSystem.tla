----------------------------- MODULE TrapSystem -----------------------------
(***************************************************************************)
(* The electrode collection (`System`) as a state machine.                 *)
(*                                                                         *)
(* State: els    sequence of electrodes [name, dc, rf]                     *)
(*        stack  open `with_voltages` blocks, innermost last, each with    *)
(*               the voltages it has to put back.                          *)
(* Operations are records with field op; Apply gives the next state,       *)
(* Legal says whether the operation succeeds (otherwise it must raise and  *)
(* leave the state unchanged), Observe is everything a client can see.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* Arguments: a sequence of values, None, or something that is no sequence
\* of voltages (a number, a generator that raises, ...).
None  == [t |-> "none", s |-> <<>>]
Bad   == [t |-> "bad", s |-> <<>>]
Vals(q) == [t |-> "seq", s |-> q]

Min2(a, b) == IF a < b THEN a ELSE b

\* Positional assignment: the i-th value goes to the i-th electrode, missing
\* values leave electrodes alone, surplus values are ignored.
SetField(els, f, v) ==
  [i \in 1..Len(els) |-> IF i <= Len(v) THEN [els[i] EXCEPT ![f] = v[i]] ELSE els[i]]

InsertBefore(els, i, e) == SubSeq(els, 1, i - 1) \o <<e>> \o SubSeq(els, i, Len(els))
Without(els, i) == SubSeq(els, 1, i - 1) \o SubSeq(els, i + 1, Len(els))

Field(els, f) == [i \in 1..Len(els) |-> els[i][f]]

\* Restoring: electrodes that existed when the block was entered get their
\* voltages back (those appended inside the block are left alone).
EnterOK(o) == o.dcs.t # "bad" /\ o.rfs.t # "bad"

DoEnter(s, o) ==
  LET e1 == IF o.dcs.t = "none" THEN s.els ELSE SetField(s.els, "dc", o.dcs.s)
      e2 == IF o.rfs.t = "none" THEN e1 ELSE SetField(e1, "rf", o.rfs.s)
      saved == [dcs |-> IF o.dcs.t = "none" THEN None ELSE Vals(Field(s.els, "dc")),
                rfs |-> IF o.rfs.t = "none" THEN None ELSE Vals(Field(s.els, "rf"))]
  IN [els |-> e2, stack |-> Append(s.stack, saved)]

DoExit(s) ==
  LET t  == s.stack[Len(s.stack)]
      e1 == IF t.dcs.t = "none" THEN s.els ELSE SetField(s.els, "dc", t.dcs.s)
      e2 == IF t.rfs.t = "none" THEN e1 ELSE SetField(e1, "rf", t.rfs.s)
  IN [els |-> e2, stack |-> SubSeq(s.stack, 1, Len(s.stack) - 1)]

Legal(s, o) ==
  CASE o.op = "enter" -> EnterOK(o)
    [] o.op = "exit"  -> TRUE
    [] o.op \in {"setdcs", "setrfs", "setnames"} -> o.v.t = "seq"
    [] OTHER -> TRUE

Enabled(s, o) == o.op \in {"exit"} => s.stack # <<>>

Apply(s, o) ==
  IF ~Legal(s, o) THEN s ELSE
  CASE o.op = "setdcs"   -> [s EXCEPT !.els = SetField(s.els, "dc", o.v.s)]
    [] o.op = "setrfs"   -> [s EXCEPT !.els = SetField(s.els, "rf", o.v.s)]
    [] o.op = "setnames" -> [s EXCEPT !.els = SetField(s.els, "name", o.v.s)]
    [] o.op = "setone"   -> [s EXCEPT !.els[o.i][o.f] = o.v]
    [] o.op = "append"   -> [s EXCEPT !.els = Append(s.els, o.e)]
    [] o.op = "pop"      -> [s EXCEPT !.els = SubSeq(s.els, 1, Len(s.els) - 1)]
    [] o.op = "insert"   -> [s EXCEPT !.els = InsertBefore(s.els, o.i, o.e)]
    [] o.op = "delete"   -> [s EXCEPT !.els = Without(s.els, o.i)]
    [] o.op = "replace"  -> [s EXCEPT !.els[o.i] = o.e]
    [] o.op = "reverse"  -> [s EXCEPT !.els = [i \in 1..Len(s.els) |-> s.els[Len(s.els) + 1 - i]]]
    [] o.op = "enter"    -> DoEnter(s, o)
    [] o.op = "exit"     -> DoExit(s)
    [] OTHER             -> s      \* "query": every evaluation is an observer

---------------------------------------------------------------------------
(* Lookup.  Integers index like a list (negative from the end); a name     *)
(* gives the first electrode with that name, or None.  Results are         *)
(* positions (1..n); 0 is None, -1 an IndexError.                          *)
LookInt(els, i) ==
  IF i >= 0 /\ i < Len(els) THEN i + 1
  ELSE IF i < 0 /\ i >= -Len(els) THEN Len(els) + i + 1
  ELSE -1

LookName(els, n) ==
  LET hits == {i \in 1..Len(els) : els[i].name = n}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j

=============================================================================
