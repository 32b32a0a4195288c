-------------------------------- MODULE Harm --------------------------------
(***************************************************************************)
(* Harmonic functions with known derivatives of every order: sums of       *)
(* Re(w exp(a.x)) with complex a, a.a = 0.  Every such a is                *)
(* (1 - s^2, i (1 + s^2), 2 s) times a factor, for a complex s; every      *)
(* derivative multiplies the term by a component of a.  A term is          *)
(* [w, s: complex of the trace, k: real scale].                            *)
(***************************************************************************)
EXTENDS Cplx, Tensor

NullVec(s, k) ==
  LET s2 == CMul(s, s)
      q == CAdd(COne, s2)
  IN  << CScale(k, CSub(COne, s2)), CScale(k, <<RNeg(q[2]), q[1]>>), CScale(k, CScale(RI(2), s)) >>

TermVec(t) == NullVec(CR(t.s), R(t.k))

\* the value of w exp(a.x) of each term at x, and its vector
Prep(terms, x) == TLCEval([i \in 1..Len(terms) |->
  LET a == TermVec(terms[i])
      e == CSum([j \in 1..3 |-> CScale(x[j], a[j])])
  IN  [a |-> a, v |-> CMul(CR(terms[i].w), CExp(e))]])

\* the derivative with multi-index m
DerivM(prep, m) == RSum([i \in 1..Len(prep) |->
  CMul(prep[i].v, CMul(CPow(prep[i].a[1], m[1]), CMul(CPow(prep[i].a[2], m[2]), CPow(prep[i].a[3], m[3]))))[1]])

\* all derivatives up to order n: a table  order -> multi-index -> value
Table(prep, n) == TLCEval([d \in 0..n |-> [m \in Multis(d) |-> DerivM(prep, m)]])
At(tab, t) == tab[Len(t)][Multi(t)]
Reduced(tab, n) == [i \in 1..Len(Comps(n)) |-> At(tab, Comps(n)[i])]
Full(tab, n) == [i \in 1..Len(Flat(n)) |-> At(tab, Flat(n)[i])]
=============================================================================
