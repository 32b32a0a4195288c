---------------------------- MODULE AdjustModel ----------------------------
(***************************************************************************)
(* Stepwise adjustment of the ion position, abstractly: voltages are       *)
(* integers, a proposal changes the grouped electrodes by some amount.     *)
(* sys  voltages applied to the electrodes (G grouped, O the other one)    *)
(* hist the history of accepted voltages                                   *)
(* nx   number of accepted moves (+ 1), pend the pending change (0: none)  *)
(* A regrouping starts again from the present voltages: a proposal for the *)
(* former groups is void, the history of voltages stays.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Depth
VARIABLES sys, hist, nx, saves, pend, amount, log
vars == <<sys, hist, nx, saves, pend, amount, log>>
Els == {"G", "O"}
Last == hist[Len(hist)]

Init == /\ sys = [e \in Els |-> 0] /\ hist = <<[e \in Els |-> 0]>>
        /\ nx = 1 /\ saves = 0 /\ pend = 0 /\ amount = 1 /\ log = <<>>

Log(o)  == log' = Append(log, o)
Dirty   == sys # Last
Tell(d) == [sys EXCEPT !["G"] = Last["G"] + d]

Propose(m) == /\ pend' = amount /\ sys' = Tell(amount) /\ amount' = amount * 3
              /\ UNCHANGED <<hist, nx, saves>> /\ Log(m)
WhatIf     == /\ sys' = Tell(amount) /\ amount' = amount * 3
              /\ UNCHANGED <<hist, nx, saves, pend>> /\ Log("whatif")
AcceptD(d) == /\ sys' = Tell(d) /\ hist' = Append(hist, [Last EXCEPT !["G"] = @ + d])
              /\ nx' = nx + 1 /\ pend' = 0 /\ UNCHANGED saves
Accept     == /\ IF pend = 0 THEN UNCHANGED <<sys, hist, nx, saves, pend>> ELSE AcceptD(pend)
              /\ UNCHANGED amount /\ Log("accept")
AcceptUser == /\ AcceptD(amount) /\ amount' = amount * 3 /\ Log("acceptuser")
Reject(m)  == /\ sys' = Last /\ pend' = 0 /\ UNCHANGED <<hist, nx, saves, amount>> /\ Log(m)
Save       == /\ ~Dirty /\ pend = 0 /\ sys' = [sys EXCEPT !["O"] = @ + amount]
              /\ hist' = Append(hist, [Last EXCEPT !["O"] = @ + amount])
              /\ saves' = saves + 1 /\ amount' = amount * 3 /\ UNCHANGED <<nx, pend>> /\ Log("save")
SetOnly    == /\ sys' = [sys EXCEPT !["O"] = @ + amount] /\ amount' = amount * 3
              /\ UNCHANGED <<hist, nx, saves, pend>> /\ Log("set")
Regroup    == /\ pend' = 0 /\ UNCHANGED <<sys, hist, nx, saves, amount>> /\ Log("regroup")

Next == /\ Len(log) < Depth
        /\ \/ Propose("force") \/ Propose("position") \/ WhatIf \/ Accept \/ AcceptUser
           \/ Reject("reject") \/ Reject("rejectuser") \/ Save \/ SetOnly \/ Regroup
        /\ Len(log') = Depth => PrintT(<<"GEN", ToJson([ev |-> log'])>>)
Spec == Init /\ [][Next]_vars

\* One entry for the start, one per accepted move and per saved setting.
OneEntryEach == Len(hist) = nx + saves
\* A rejection leaves no trace of the proposal.
RejectRestores == [][(log' # log /\ log'[Len(log')] \in {"reject", "rejectuser"}) => (sys' = Last /\ hist' = hist /\ pend' = 0)]_vars
\* Nothing proposed before a regrouping is accepted after it.
RegroupVoids == [][(log' # log /\ log'[Len(log')] = "accept" /\ Len(log) > 0 /\ log[Len(log)] = "regroup") => (sys' = sys /\ hist' = hist)]_vars
\* The system shows a history entry again after every accepted move that
\* follows no other setting.
AcceptShows == [][(hist' # hist /\ log'[Len(log')] \in {"accept", "acceptuser"}) => hist'[Len(hist')]["G"] = sys'["G"]]_vars
\* History is only ever extended.
AppendOnly == [][Len(hist') >= Len(hist) /\ SubSeq(hist', 1, Len(hist)) = hist]_vars
=============================================================================
