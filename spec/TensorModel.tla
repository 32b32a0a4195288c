---------------------------- MODULE TensorModel ----------------------------
(* The reduced form is well defined: checked for the specification itself.  *)
(* Every index follows from the components by exactly one application of    *)
(* the Laplace equation, and the rules are consistent for harmonic          *)
(* functions (2n+1 independent components: all traces of the expanded       *)
(* tensor vanish for every reduced tensor, i.e. for every unit vector).     *)
EXTENDS Tensor
VARIABLES n, j
Init == n \in 0..MaxOrder /\ j \in 1..11 /\ j <= 2 * n + 1
Next == UNCHANGED <<n, j>>
Unit == [i \in 1..(2 * n + 1) |-> IF i = j THEN ROne ELSE RZero]
Complete == Len(Comps(n)) = 2 * n + 1
Traceless == n >= 2 => \A m \in Multis(n - 2) :
   REq(RSum([a \in 1..3 |-> Entry(Unit, Tup([m EXCEPT ![a] = @ + 2]))]), RZero)
Selected == \A i \in 1..(2 * n + 1) : REq(Entry(Unit, Comps(n)[i]), Unit[i])
Spec == Init /\ [][Next]_<<n, j>>
=============================================================================
