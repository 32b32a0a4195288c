------------------------------- MODULE Pseudo -------------------------------
(***************************************************************************)
(* The derivatives of the pseudopotential k^2 |grad f|^2 from those of f,   *)
(* by the general Leibniz rule, and of the total potential.                 *)
(***************************************************************************)
EXTENDS Tensor

Binom(n, r) == Fact(n) \div (Fact(r) * Fact(n - r))
Plus(m, i) == [m EXCEPT ![i] = @ + 1]
Order(m) == m[1] + m[2] + m[3]

\* f: table order -> multi-index -> derivative of f (orders 1 .. Order(m)+1)
PseudoM(f, m) ==
  LET A == {<<a, b, c>> : a \in 0..m[1], b \in 0..m[2], c \in 0..m[3]}
      Term(a) == LET r == <<m[1] - a[1], m[2] - a[2], m[3] - a[3]>> IN
        RI(Binom(m[1], a[1]) * Binom(m[2], a[2]) * Binom(m[3], a[3])) **
        RSum([i \in 1..3 |-> f[Order(a) + 1][Plus(a, i)] ** f[Order(r) + 1][Plus(r, i)]])
      seq == SetToSeq(A)
  IN RSum([i \in 1..Len(seq) |-> Term(seq[i])])

PseudoTable(f, n, k) == TLCEval([m \in Multis(n) |-> k ** k ** PseudoM(f, m)])
=============================================================================
