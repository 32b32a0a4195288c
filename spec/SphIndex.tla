------------------------------ MODULE SphIndex ------------------------------
(* Where the coefficient of (n, m) is kept: an N by N array.               *)
EXTENDS Integers, FiniteSets
IAb(m) == IF m < 0 THEN -m ELSE m
Row(N, n, m) == IF m >= 0 THEN m ELSE N + m
Col(N, n, m) == IF m >= 0 THEN n ELSE N - 1 - n
NM(N) == {q \in (0..N-1) \X (-(N-1)..(N-1)) : IAb(q[2]) <= q[1]}
=============================================================================
