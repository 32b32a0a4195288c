----------------------------- MODULE PlotTrace ------------------------------
(***************************************************************************)
(* Plots show the queried data (P43).                                      *)
(***************************************************************************)
EXTENDS Plot, Region, TraceIn

VARIABLES sc, k

V3(q) == <<R(q[1]), R(q[2]), R(q[3])>>
\* the exactly quadratic electrodes
Hx(e, x) == [i \in 1..3 |-> RDot([j \in 1..3 |-> R(e.H[i][j])], x)]
Phi(e, x) == R(e.c) ++ RDot(V3(e.g), x) ++ (RDot(x, Hx(e, x)) // RI(2))
Grad(e, x) == TLCEval([i \in 1..3 |-> R(e.g[i]) ++ Hx(e, x)[i]])
Dc(els, x) == RSum([i \in 1..Len(els) |-> R(els[i].dc) ** Phi(els[i], x)])
RfField(els, x) == [c \in 1..3 |-> RSum([i \in 1..Len(els) |-> R(els[i].rf) ** Grad(els[i], x)[c]])]
Rf(els, rfc, x) == LET f == TLCEval(RfField(els, x)) IN R(rfc) ** R(rfc) ** RDot(f, f)
Want(e, x) == CASE e.typ = "dc" -> Dc(e.els, x)
                [] e.typ = "rf" -> Rf(e.els, e.rfc, x)
                [] OTHER -> Dc(e.els, x) ++ Rf(e.els, e.rfc, x)

\* coordinate of node i of n, grid centred at c with pitch s
Node(c, s, n, i) == R(c) ++ (R(s) ** RFrac(2 * i - n - 1, 2))
\* the same for a grid given by its first node
FromOrigin(o, s, i) == R(o) ++ (R(s) ** RI(i - 1))

ContourV(e) ==
  LET h == Horizontal(e.slc)
      v == Vertical(e.slc)
      W == e.shape[h]
      H == e.shape[v]
      Xs(a, i) == IF e.given THEN Node(e.center[a], e.step[a], e.shape[a], i) ELSE FromOrigin(e.origin[a], e.step[a], i)
      X == TLCEval([i \in 1..W |-> Xs(h, i)])
      Y == TLCEval([i \in 1..H |-> Xs(v, i)])
      Z == TLCEval([j \in 1..H |-> TLCEval([i \in 1..W |-> Want(e, PointOf(e.slc, R(e.at), X[i], Y[j]))])])
      all == TLCEval([n \in 1..(W * H) |-> Z[((n - 1) \div W) + 1][((n - 1) % W) + 1]])
      scale == RMax(RMaxAbs(all), R("1e-9"))
      tol == R("1e-8") ** scale
      xt == R("1e-9") ** RMax(ROne, RMax(RMaxAbs(X), RMaxAbs(Y)))
      sized == Len(e.X) = W /\ Len(e.Y) = H /\ Len(e.Z) = H /\ \A j \in 1..Len(e.Z) : Len(e.Z[j]) = W
      top == FoldLeft(LAMBDA m, x : RMax(m, x), all[1], all)
      bottom == FoldLeft(LAMBDA m, x : RMin(m, x), all[1], all)
  IN Clause("shape", sized)
     \cup Clause("coordinates", ~sized \/ (RNearSeq(RSeq(e.X), X, xt) /\ RNearSeq(RSeq(e.Y), Y, xt)))
     \cup Clause("values", ~sized \/ \A j \in 1..H : RNearSeq(RSeq(e.Z[j]), Z[j], tol))
     \cup Clause("extrema", RNear(R(e.max), top, tol) /\ RNear(R(e.min), bottom, tol))
     \cup Clause("labels", e.xlabel = Axes[h] /\ e.ylabel = Axes[v])
     \cup Clause("filled", e.filled = e.fill)
     \cup Clause("levels", LET l == RSeq(e.levels) n == Len(e.levels)
                               want == top // R(e.divide) IN
            IF e.userlevels THEN e.levels = e.wantlevels
            ELSE /\ n = e.line_num
                 /\ \A i \in 1..(n - 1) : RLt(l[i], l[i + 1])
                 /\ RNear(l[1], bottom, tol)
                 /\ RLt(bottom ++ tol, want) => RNear(l[n], want, tol)
                 /\ RLe(l[n], RMax(top, want) ++ tol))

\* position of the voltage u on the scale from -um to um, from 0 to 1
Scale(u, um) == ((R(u) // um) ++ ROne) // RI(2)
VoltageV(e) ==
  LET n == Len(e.u)
      big == RMaxAbs(RSeq(e.u))
      um == IF e.um # "None" THEN R(e.um) ELSE IF RLe(big, RZero) THEN ROne ELSE big
  IN Clause("each_once", e.order = [i \in 1..n |-> i])
     \cup Clause("colours", Len(e.shown) = n /\ \A i \in 1..Len(e.shown) : RNear(R(e.shown[i]), Scale(e.u[i], um), R("1e-9")))
     \cup Clause("passed_on", e.passed)

SignV(e) ==
  Clause("each_once", Len(e.rgb) = Len(e.u))
  \cup Clause("red_positive_blue_negative", \A i \in 1..Len(e.rgb) :
     /\ RLt(RZero, R(e.u[i])) => RLt(R(e.rgb[i][3]), R(e.rgb[i][1]))
     /\ RLt(R(e.u[i]), RZero) => RLt(R(e.rgb[i][1]), R(e.rgb[i][3])))

PaletteV(e) ==
  LET n == Len(e.shown) IN
  Clause("each_once", e.order = [i \in 1..e.n |-> i])
  \cup Clause("distinct", \A i, j \in 1..n : (i < j /\ j - i < 12) => e.shown[i] # e.shown[j])
  \cup Clause("cycle", \A i \in 1..(n - 12) : e.shown[i] = e.shown[i + 12])
  \cup Clause("passed_on", e.passed)

\* is the plane point p shown by the electrode, and how far from its edges
Rings(el) == TLCEval([i \in 1..Len(el.paths) |-> Ring(el.paths[i])])
RingsWind(p, rs) == FoldLeft(LAMBDA a, r : a + Wind(p, r), 0, rs)
InDisc(p, c, a) == RLe(RPi ** D2(p, Pt(c)), R(a))
Shows(el, p) ==
  IF el.t = "polygon" THEN RingsWind(p, Rings(el)) # 0
  ELSE \E i \in 1..Len(el.points) : InDisc(p, el.points[i], el.areas[i])
\* farther than m from every edge
Clear(el, p, m) ==
  IF el.t = "polygon" THEN \A i \in 1..Len(el.paths) : RLt(m ** m, RingD2(p, Rings(el)[i]))
  ELSE \A i \in 1..Len(el.points) :
         LET d == RSqrt(D2(p, Pt(el.points[i]))) r == RSqrt(R(el.areas[i]) // RPi) IN RLt(m, RAbs(d -- r))

SameColour(a, b) == \A i \in 1..3 : RNear(R(a[i]), R(b[i]), R("0.006"))
White == <<"1.0", "1.0", "1.0">>
PixelV(e, s) ==
  LET p == Pt(s.p)
      on == {i \in 1..Len(e.els) : Shows(e.els[i], p)}
  IN IF \E i \in 1..Len(e.els) : ~Clear(e.els[i], p, R(e.margin)) THEN {}
     ELSE Clause("background", on # {} \/ SameColour(s.rgb, White))
          \cup Clause("colour", on = {} \/ SameColour(s.rgb, e.els[CHOOSE i \in on : \A j \in on : j <= i].colour))
PixelsV(e) == UNION {PixelV(e, e.pixels[i]) : i \in 1..Len(e.pixels)}

TextV(e) ==
  LET want == IF e.label = "None" THEN e.name ELSE e.label IN
  Clause("label", IF want = "" THEN e.texts = <<>>
                  ELSE e.texts # <<>> /\ \A i \in 1..Len(e.texts) : e.texts[i].s = want)
  \* inside the bounding box of the electrode
  \cup Clause("label_place", \A i \in 1..Len(e.texts) :
         \A c \in 1..2 : LET t == R("1e-9") ** RMax(RMaxAbs(RSeq(e.box[1])), RMaxAbs(RSeq(e.box[2]))) IN
            RLe(R(e.box[1][c]) -- t, R(e.texts[i].p[c])) /\ RLe(R(e.texts[i].p[c]), R(e.box[2][c]) ++ t))

Verdict(e) ==
  IF e.exc # "no" THEN {"unexpected_exception"} ELSE
  CASE e.kind = "contour" -> ContourV(e)
    [] e.kind = "voltages" -> VoltageV(e)
    [] e.kind = "signs" -> SignV(e)
    [] e.kind = "palette" -> PaletteV(e)
    [] e.kind = "pixels" -> PixelsV(e)
    [] e.kind = "text" -> TextV(e)
    [] e.kind = "empty" -> Clause("nothing_drawn", e.artists = 0)
    [] OTHER -> {"unknown_event"}

Init == sc \in 1..TraceLen /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED sc /\ Report(sc, 1, Verdict(Trace[sc]))
Spec == Init /\ [][Next]_<<sc, k>>
=============================================================================
