----------------------------- MODULE QueryModel -----------------------------
(***************************************************************************)
(* Queries among assignments, abstractly: the value of every attribute is  *)
(* a version number, a query's answer is a function of the versions.       *)
(* Checked: a query leaves all versions and open blocks alone, the answer  *)
(* in a state is the same whenever the state returns, closing a block      *)
(* restores the versions of the voltages it changed, and only those.       *)
(* The model enumerates all short histories for the replay.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Depth

Classes == {"evaluate", "search", "solve", "report", "draw", "fail"}
Assign  == {"setdcs", "setrfs", "setnames", "setone", "append", "pop", "rfscale", "geo"}

VARIABLES ver, size, stack, next, memo, hist
vars == <<ver, size, stack, next, memo, hist>>
\* ver: versions of dc, rf, names, geometry, rf coefficient
State == <<ver, size>>

Init == /\ ver = [dc |-> 0, rf |-> 0, name |-> 0, geo |-> 0, rfc |-> 0]
        /\ size = 2 /\ stack = <<>> /\ next = 1 /\ memo = {} /\ hist = <<>>

Bump(f) == ver' = [ver EXCEPT ![f] = next] /\ next' = next + 1

Log(o) == hist' = Append(hist, o)

Query(c) == /\ memo' = memo \cup {[q |-> c, at |-> State, ans |-> <<c, State>>]}
            /\ UNCHANGED <<ver, size, stack, next>> /\ Log([op |-> "query", cls |-> c])
Again    == /\ \E i \in 1..Len(hist) : hist[i].op = "query"
            /\ hist[Len(hist)].op # "query"
            /\ UNCHANGED <<ver, size, stack, next, memo>> /\ Log([op |-> "again", cls |-> ""])
Set(o)   == /\ CASE o = "setdcs" -> Bump("dc") /\ UNCHANGED size
                 [] o = "setrfs" -> Bump("rf") /\ UNCHANGED size
                 [] o = "setone" -> Bump("dc") /\ UNCHANGED size
                 [] o = "setnames" -> Bump("name") /\ UNCHANGED size
                 [] o = "geo" -> Bump("geo") /\ UNCHANGED size
                 [] o = "rfscale" -> Bump("rfc") /\ UNCHANGED size
                 [] o = "append" -> size' = size + 1 /\ UNCHANGED <<ver, next>>
                 [] o = "pop" -> size > 1 /\ size' = size - 1 /\ UNCHANGED <<ver, next>>
            /\ UNCHANGED <<stack, memo>> /\ Log([op |-> o, cls |-> ""])
Enter    == /\ Bump("dc") /\ stack' = Append(stack, [dc |-> ver.dc])
            /\ UNCHANGED <<size, memo>> /\ Log([op |-> "enter", cls |-> ""])
Exit     == /\ stack # <<>> /\ ver' = [ver EXCEPT !.dc = stack[Len(stack)].dc]
            /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
            /\ UNCHANGED <<size, next, memo>> /\ Log([op |-> "exit", cls |-> ""])

Next == /\ Len(hist) < Depth
        /\ \/ \E c \in Classes : Query(c)
           \/ Again
           \/ \E o \in Assign : Set(o)
           \/ Enter
           \/ Exit
        /\ (Len(hist') = Depth /\ hist'[Depth].op \in {"query", "again"}) =>
              PrintT(<<"GEN", ToJson([ev |-> hist'])>>)
Spec == Init /\ [][Next]_vars

\* Queries are observers.
Observers == [][(hist' # hist /\ hist'[Len(hist')].op \in {"query", "again"}) =>
                  (ver' = ver /\ size' = size /\ stack' = stack)]_vars
\* The same question in the same state has one answer.
Functional == \A a, b \in memo : (a.q = b.q /\ a.at = b.at) => a.ans = b.ans
\* An open block holds an older version of the voltages than any change inside it.
BlocksNest == \A i \in 1..Len(stack) : stack[i].dc < next
=============================================================================
