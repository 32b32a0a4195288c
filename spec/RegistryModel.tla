--------------------------- MODULE RegistryModel ---------------------------
(* All bounded histories of TrapSystem.  Checked here: closing every open  *)
(* block restores the voltages the system had before the outermost one,    *)
(* whatever happened inside, and names are never touched by blocks.  The   *)
(* histories of full length are printed and replayed on the code.          *)
EXTENDS TrapSystem, TLC, Json

CONSTANTS Depth, Mode

VARIABLES els, stack, hist, init, base

vars == <<els, stack, hist, init, base>>

E(i, n, d, r) == [id |-> i, name |-> n, dc |-> d, rf |-> r]

Inits == IF Mode = "with"
         THEN {<<E(1, "a", 1, 0), E(2, "b", 2, 5)>>}
         ELSE {<<>>, <<E(1, "a", 1, 0), E(2, "a", 2, 5), E(3, "", 0, 0)>>}

WithOps ==
  {[op |-> "enter", dcs |-> d, rfs |-> r] :
       d \in {None, Vals(<<7, 8>>), Vals(<<9>>), Bad}, r \in {None, Vals(<<3, 4, 6>>), Vals(<<>>), Bad}}
  \cup {[op |-> "exit", how |-> h] : h \in {"ok", "raise"}}
  \cup {[op |-> "setdcs", v |-> Vals(<<11, 12>>)], [op |-> "setrfs", v |-> Vals(<<13>>)],
        [op |-> "setone", i |-> 2, f |-> "dc", v |-> 14],
        [op |-> "append", e |-> E(9, "c", 15, 16)]}

RegOps ==
  {[op |-> "setdcs", v |-> v] : v \in {Vals(<<7, 8, 9>>), Vals(<<4>>), Vals(<<5, 6, 7, 8>>), Vals(<<>>), Bad}}
  \cup {[op |-> "setrfs", v |-> v] : v \in {Vals(<<1, 2, 3>>), Vals(<<2>>)}}
  \cup {[op |-> "setnames", v |-> v] : v \in {Vals(<<"b", "c", "a">>), Vals(<<"b">>), Vals(<<"x", "b", "b", "y">>)}}
  \cup {[op |-> "setone", i |-> 1, f |-> "name", v |-> "b"]}
  \cup {[op |-> "append", e |-> E(9, "b", 15, 16)], [op |-> "pop"], [op |-> "reverse"],
        [op |-> "insert", i |-> 1, e |-> E(8, "b", 17, 18)], [op |-> "insert", i |-> 3, e |-> E(8, "", 0, 18)],
        [op |-> "delete", i |-> 2], [op |-> "replace", i |-> 1, e |-> E(7, "a", 19, 0)]}

\* one of each kind, for longer histories
FewOps == {[op |-> "setdcs", v |-> Vals(<<7, 8, 9>>)], [op |-> "setrfs", v |-> Vals(<<2>>)],
           [op |-> "setnames", v |-> Vals(<<"x", "b", "b", "y">>)],
           [op |-> "append", e |-> E(9, "b", 15, 16)], [op |-> "pop"], [op |-> "reverse"],
           [op |-> "insert", i |-> 1, e |-> E(8, "b", 17, 18)],
           [op |-> "delete", i |-> 2], [op |-> "replace", i |-> 1, e |-> E(7, "a", 19, 0)]}

Ops == CASE Mode = "with" -> WithOps [] Mode = "few" -> FewOps [] OTHER -> RegOps

Cur == [els |-> els, stack |-> stack]

Can(o) ==
  /\ Enabled(Cur, o)
  /\ (o.op = "append" => \A i \in 1..Len(els) : els[i].id # 9)
  /\ (o.op \in {"insert", "replace"} => /\ o.i <= Len(els) + (IF o.op = "insert" THEN 1 ELSE 0)
                                        /\ \A i \in 1..Len(els) : els[i].id # o.e.id)
  /\ (o.op = "delete" => o.i <= Len(els))
  /\ (o.op = "pop" => els # <<>> /\ stack = <<>>)
  /\ (o.op = "setone" => o.i <= Len(els))
  /\ (o.op = "enter" => Len(stack) < 2)

Init == /\ els \in Inits /\ stack = <<>>
        /\ base = <<>> /\ init = els /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops :
             /\ Can(o)
             /\ LET t == Apply(Cur, o)
                IN /\ els' = t.els /\ stack' = t.stack
                   /\ base' = IF Len(t.stack) > Len(stack) THEN Append(base, els)
                              ELSE SubSeq(base, 1, Len(t.stack))
             /\ hist' = Append(hist, o)
        /\ UNCHANGED init
        /\ Len(hist') = Depth => PrintT(<<"GEN", ToJson([init |-> init, ev |-> hist'])>>)
Spec == Init /\ [][Next]_vars

\* base[n]: the electrodes as they were when block n was entered.  When it
\* closes, what it temporarily set is as it was.
Restores ==
  Len(stack') < Len(stack) =>
    LET n == Len(stack) IN
    \A i \in 1..Len(base[n]) :
      /\ stack[n].dcs.t # "none" => els'[i].dc = base[n][i].dc
      /\ stack[n].rfs.t # "none" => els'[i].rf = base[n][i].rf
      /\ els'[i].name = els[i].name
RestoresProp == [][Restores]_vars
\* A failed entry changes nothing.
FailedOpsAreNoOps ==
  [][LET o == hist'[Len(hist')] IN ~Legal(Cur, o) => els' = els /\ stack' = stack]_vars
TypeOK == /\ Len(base) = Len(stack)
          /\ \A i \in 1..Len(els) : DOMAIN els[i] = {"id", "name", "dc", "rf"}
          /\ \A i, j \in 1..Len(els) : i # j => els[i].id # els[j].id
=============================================================================
