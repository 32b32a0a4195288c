---------------------------- MODULE FieldsModel ----------------------------
(* The two forms of the loop potential agree: a central difference of the  *)
(* solid angle (40 digits, step 1e-8) is the Biot-Savart derivative; the    *)
(* potential over the centre of a large square is nearly 1, on the other    *)
(* side nearly -1; far away a loop is a pixel of its area at its centroid.  *)
EXTENDS Fields, SphHarm
VARIABLES lp, pt, d
Loops == << <<<<0, 0>>, <<4, 0>>, <<4, 3>>>>, <<<<0, 0>>, <<5, 0>>, <<5, 5>>, <<3, 1>>, <<0, 5>>>>,
            <<<<0, 0>>, <<0, 3>>, <<2, 3>>, <<2, 0>>>>, <<<<1, 1>>, <<4, 4>>, <<4, 1>>, <<1, 4>>>> >>
Pts == << <<1, 1, 1>>, <<2, -1, 2>>, <<1, 2, -1>>, <<4, 3, 1>>, <<-3, 7, 2>>, <<3, 1, -3>> >>
RLoop(i) == [j \in 1..Len(Loops[i]) |-> [c \in 1..2 |-> RI(Loops[i][j][c])]]
RPt(i) == [c \in 1..3 |-> RI(Pts[i][c])]
H == R("1e-8")
Shift(p, n, t) == [c \in 1..3 |-> p[c] ++ (t ** n[c])]
Slope == LET l == RLoop(lp) p == RPt(pt) n == Dirs[d]
             fd == (LoopPot(l, Shift(p, n, H)) -- LoopPot(l, Shift(p, n, RNeg(H)))) // (RI(2) ** H)
         IN  RNear(fd, LoopDeriv(l, p, n, 0)[1], R("1e-13"))
\* the k-th derivative is the difference of the (k-1)-th
Higher == LET l == RLoop(lp) p == RPt(pt) n == Dirs[d]
              a == LoopDeriv(l, Shift(p, n, H), n, 3) b == LoopDeriv(l, Shift(p, n, RNeg(H)), n, 3)
              c == LoopDeriv(l, p, n, 4)
          IN  \A k \in 1..4 : RNear((a[k] -- b[k]) // (RI(2) ** H), c[k + 1], R("1e-10"))
Sq(s) == <<<<RNeg(s), RNeg(s)>>, <<s, RNeg(s)>>, <<s, s>>, <<RNeg(s), s>>>>
Sides == /\ RNear(LoopPot(Sq(RI(1000)), <<RZero, RZero, R("1e-3")>>), ROne, R("1e-5"))
         /\ RNear(LoopPot(Sq(RI(1000)), <<RZero, RZero, R("-1e-3")>>), RI(-1), R("1e-5"))
         /\ RNear(LoopPot(Sq(ROne), <<RI(900), RI(-700), RI(800)>>) // (RI(4) ** PixelDeriv(<<RZero, RZero>>, <<RI(900), RI(-700), RI(800)>>, Dirs[1], 0)[1]), ROne, R("1e-5"))
Init == lp \in 1..Len(Loops) /\ pt \in 1..Len(Pts) /\ d \in 1..3
Next == UNCHANGED <<lp, pt, d>>
Spec == Init /\ [][Next]_<<lp, pt, d>>
=============================================================================
