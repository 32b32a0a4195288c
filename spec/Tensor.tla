------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Derivative tensors of harmonic functions and their reduced form.        *)
(* Axes are 1, 2, 3 (x, y, z).  The only thing fixed by convention is the  *)
(* choice and order of the 2n+1 components of each order (Names); how the  *)
(* other components follow from them is derived from the Laplace equation: *)
(* an index containing an axis twice is minus the sum over the other two   *)
(* axes in its place.                                                      *)
(***************************************************************************)
EXTENDS Num, TLC, SequencesExt

Names ==
  << << <<>> >>,
     <<<<1>>, <<2>>, <<3>>>>,
     <<<<1,1>>, <<1,2>>, <<1,3>>, <<2,2>>, <<2,3>>>>,
     <<<<1,1,2>>, <<1,1,3>>, <<2,2,3>>, <<1,2,2>>, <<1,3,3>>, <<2,3,3>>, <<1,2,3>>>>,
     <<<<1,1,1,2>>, <<1,1,1,3>>, <<1,1,2,2>>, <<1,1,3,3>>, <<1,2,2,2>>, <<1,3,3,3>>,
       <<2,2,2,3>>, <<2,2,3,3>>, <<2,3,3,3>>>>,
     <<<<1,1,1,2,2>>, <<1,1,1,2,3>>, <<1,1,1,3,3>>, <<1,1,2,2,2>>, <<1,1,2,2,3>>,
       <<1,1,2,3,3>>, <<1,1,3,3,3>>, <<1,2,2,2,3>>, <<1,2,2,3,3>>, <<2,2,2,3,3>>,
       <<2,2,3,3,3>>>> >>
MaxOrder == 5
Comps(n) == Names[n + 1]                 \* components of order n

\* A multi-index <<a, b, c>>: how often each axis occurs in a tuple of axes.
RECURSIVE Count(_, _)
Count(t, a) == IF t = <<>> THEN 0 ELSE (IF Head(t) = a THEN 1 ELSE 0) + Count(Tail(t), a)
Multi(t) == <<Count(t, 1), Count(t, 2), Count(t, 3)>>
Tup(m) == [i \in 1..(m[1] + m[2] + m[3]) |-> IF i <= m[1] THEN 1 ELSE IF i <= m[1] + m[2] THEN 2 ELSE 3]
Sorted(t) == Tup(Multi(t))
Multis(n) == {m \in (0..n) \X (0..n) \X (0..n) : m[1] + m[2] + m[3] = n}

\* position of a component among those of its order, 0 if it is not one of them
Pos(t) == LET c == Comps(Len(t)) IN
          IF \E i \in 1..Len(c) : c[i] = Sorted(t) THEN CHOOSE i \in 1..Len(c) : c[i] = Sorted(t) ELSE 0

\* The two indices that add up with m to a trace, replacing a pair of axis a.
Pair(m, a) == LET o == {1, 2, 3} \ {a}
                  b == CHOOSE x \in o : TRUE
                  c == CHOOSE x \in o : x # b
                  Rep(d) == [m EXCEPT ![a] = @ - 2, ![d] = @ + 2]
              IN  <<Rep(b), Rep(c)>>

\* How each multi-index follows from the components: a set of positions whose
\* sum, times the sign, is the entry.
Rule(m) ==
  IF Pos(Tup(m)) > 0 THEN [sign |-> 1, of |-> <<Pos(Tup(m))>>]
  ELSE LET a == CHOOSE a \in 1..3 : m[a] >= 2 /\ \A i \in 1..2 : Pos(Tup(Pair(m, a)[i])) > 0
           p == Pair(m, a)
       IN  [sign |-> -1, of |-> <<Pos(Tup(p[1])), Pos(Tup(p[2]))>>]
Rules == TLCEval([n \in 0..MaxOrder |-> [m \in Multis(n) |-> Rule(m)]])

\* Entry of the full tensor with index t, from the reduced components r.
Entry(r, t) == LET u == Rules[Len(t)][Multi(t)]
                   s == RSum([i \in 1..Len(u.of) |-> r[u.of[i]]])
               IN  IF u.sign = 1 THEN s ELSE RNeg(s)

\* All axis tuples of order n, in the order of a flattened 3 x ... x 3 array.
RECURSIVE Tuples(_)
Tuples(n) == IF n = 0 THEN << <<>> >>
             ELSE LET p == Tuples(n - 1) IN
                  [i \in 1..(3 * Len(p)) |-> p[((i - 1) \div 3) + 1] \o <<((i - 1) % 3) + 1>>]
AllTuples == TLCEval([n \in 0..MaxOrder |-> Tuples(n)])
Flat(n) == AllTuples[n]

Fact(n) == IF n <= 1 THEN 1 ELSE IF n = 2 THEN 2 ELSE IF n = 3 THEN 6 ELSE IF n = 4 THEN 24 ELSE IF n = 5 THEN 120 ELSE 720
\* n! / (a! b! c!): how many tuples have the multi-index m
Ways(m) == Fact(m[1] + m[2] + m[3]) \div (Fact(m[1]) * Fact(m[2]) * Fact(m[3]))

\* Contraction of the tensor of order n with components r with the vector v in
\* every index: the n-th derivative along v.
MultiSeq == TLCEval([n \in 0..MaxOrder |-> SetToSeq(Multis(n))])
Along(r, n, v) ==
  LET ms == MultiSeq[n]
  IN  RSum([i \in 1..Len(ms) |->
        LET m == ms[i] IN
        RI(Ways(m)) ** Entry(r, Tup(m)) ** (RPow(v[1], m[1]) ** (RPow(v[2], m[2]) ** RPow(v[3], m[3])))])
=============================================================================
