----------------------------- MODULE RegionOps -----------------------------
(***************************************************************************)
(* The algebra of named regions.  A layout is a sequence of electrodes     *)
(* [name, mem]; mem[j] says whether sample point (or cell) j belongs to    *)
(* the electrode.  The same operators are explored exhaustively on small   *)
(* sets of cells (RegionModel) and applied to the sample points of traces  *)
(* recorded from the code (PolyTrace).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

El(n, m) == [name |-> n, mem |-> m]
Names(ps) == [i \in 1..Len(ps) |-> ps[i].name]
Each(ps, f(_)) == TLCEval([i \in 1..Len(ps) |-> [name |-> ps[i].name, mem |-> TLCEval(f(i))]])
\* successively leave out what earlier electrodes cover
RemoveOverlaps(ps) == Each(ps, LAMBDA i : [j \in DOMAIN ps[i].mem |-> ps[i].mem[j] /\ \A l \in 1..(i - 1) : ~ps[l].mem[j]])
Same(ps) == ps
RestrictTo(ps, g) == Each(ps, LAMBDA i : [j \in DOMAIN ps[i].mem |-> ps[i].mem[j] /\ g[j]])
\* one electrode per name, in the order of first occurrence
UnifyByName(ps) ==
  LET first == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : \A l \in 1..(i - 1) : ps[l].name # ps[i].name)
  IN TLCEval([k \in 1..Len(first) |->
       El(ps[first[k]].name,
          [j \in DOMAIN ps[first[k]].mem |-> \E l \in 1..Len(ps) : ps[l].name = ps[first[k]].name /\ ps[l].mem[j]])])
\* keep the electrodes in S
Keep(ps, S) == LET ix == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : i \in S) IN [k \in 1..Len(ix) |-> ps[ix[k]]]
Union(ps, j) == \E i \in 1..Len(ps) : ps[i].mem[j]
Disjoint(ps) == \A i, l \in 1..Len(ps) : i # l => \A j \in DOMAIN ps[i].mem : ~(ps[i].mem[j] /\ ps[l].mem[j])

(* Pads claim, in order, the first electrode still free that touches them.  *)
(* touch[q][i]: pad q touches electrode i.                                  *)
FirstFree(t, free) == LET c == {m \in 1..Len(free) : t[free[m]]} IN IF c = {} THEN 0 ELSE CHOOSE m \in c : \A l \in c : m <= l
AssignStep(st, t, q) ==
  LET m == FirstFree(t, st.free) IN
  IF m = 0 THEN st ELSE [free |-> RemoveAt(st.free, m), out |-> Append(st.out, <<q, st.free[m]>>)]
Assign(touch, n) ==
  LET s0 == [free |-> [i \in 1..n |-> i], out |-> <<>>]
      s == FoldLeft(LAMBDA st, q : AssignStep(st, touch[q], q), s0, [q \in 1..Len(touch) |-> q])
  IN s.out \o [m \in 1..Len(s.free) |-> <<0, s.free[m]>>]
=============================================================================
