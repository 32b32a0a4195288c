------------------------------ MODULE SphModel ------------------------------
(***************************************************************************)
(* The specified harmonics are orthonormal under the Gauss-Legendre        *)
(* quadrature for every degree below its size, and every place of the      *)
(* coefficient array belongs to exactly one (n, m).                        *)
(***************************************************************************)
EXTENDS SphHarm, SphIndex

VARIABLES N, a, b
vars == <<N, a, b>>

Sq(n, d) == RSqrt(RFrac(n, d))
Pm(x, w) == << <<x, w>>, <<RNeg(x), w>> >>
\* nodes and weights of the quadrature of size n
Quad(n) == CASE n = 1 -> << <<RZero, RI(2)>> >>
             [] n = 2 -> Pm(Sq(1, 3), ROne)
             [] n = 3 -> << <<RZero, RFrac(8, 9)>> >> \o Pm(Sq(3, 5), RFrac(5, 9))
             [] OTHER -> LET u == RFrac(2, 7) ** Sq(6, 5) IN
                         Pm(RSqrt(RFrac(3, 7) -- u), (RI(18) ++ RSqrt(RI(30))) // RI(36))
                      \o Pm(RSqrt(RFrac(3, 7) ++ u), (RI(18) -- RSqrt(RI(30))) // RI(36))
At(x, j, n) == LET s == RSqrt(ROne -- (x ** x))
                   p == (RI(j) ** RPi) // RI(n)
               IN <<s ** RCos(p), s ** RSin(p), x>>
Inner(n, p, q) == LET Q == Quad(n) IN
  CSum([t \in 1..(2 * n * n) |->
     LET i == ((t - 1) \div (2 * n)) + 1
         d == At(Q[i][1], (t - 1) % (2 * n), n)
     IN CScale((Q[i][2] ** RPi) // RI(n), CMul(YCplx(p[1], p[2], d), CConj(YCplx(q[1], q[2], d))))])

Init == N \in 1..4 /\ a \in NM(N) /\ b \in NM(N)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Orthonormal == CNear(Inner(N, a, b), IF a = b THEN COne ELSE CZero, R("1e-25"))
Places == a # b => <<Row(N, a[1], a[2]), Col(N, a[1], a[2])>> # <<Row(N, b[1], b[2]), Col(N, b[1], b[2])>>
Filled == Cardinality(NM(N)) = N * N
=============================================================================
