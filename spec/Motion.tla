------------------------------- MODULE Motion -------------------------------
(***************************************************************************)
(* A system of electrodes with exactly known potentials (a quadratic plus  *)
(* harmonic exponentials each), its dc, rf, pseudo and total potential,    *)
(* gradient and Hessian, also in a frame whose axes are the columns of a   *)
(* matrix.  els[j]: [dc, rf, c, g, H, terms].                              *)
(***************************************************************************)
EXTENDS Harm, Pseudo

QuadM(el, x, m) ==
  LET Hx(i) == RSum([j \in 1..3 |-> R(el.H[i][j]) ** x[j]]) t == Tup(m) IN
  CASE Len(t) = 0 -> RSum(<<R(el.c)>> \o [i \in 1..3 |-> x[i] ** (R(el.g[i]) ++ (R("0.5") ** Hx(i)))])
    [] Len(t) = 1 -> R(el.g[t[1]]) ++ Hx(t[1])
    [] Len(t) = 2 -> R(el.H[t[1]][t[2]])
    [] OTHER -> RZero
\* table order -> multi-index -> derivative of the voltage weighted sum, to order n
Volts(els, v, x, n) ==
  LET prep == TLCEval([j \in 1..Len(els) |-> Prep(els[j].terms, x)]) IN
  TLCEval([d \in 0..n |-> [m \in Multis(d) |-> RSum([j \in 1..Len(els) |-> IF v[j] = RZero THEN RZero ELSE v[j] ** (DerivM(prep[j], m) ++ QuadM(els[j], x, m))])]])
DcV(els) == [j \in 1..Len(els) |-> R(els[j].dc)]
RfV(els) == [j \in 1..Len(els) |-> R(els[j].rf)]
TotalTable(els, scale, x, n) ==
  LET d == Volts(els, DcV(els), x, n) f == Volts(els, RfV(els), x, n + 1) IN
  TLCEval([o \in 0..n |-> LET ps == PseudoTable(f, o, scale) IN [m \in Multis(o) |-> d[o][m] ++ ps[m]]])
InstantTable(els, x, n, t) ==
  LET c == RCos(t) IN
  TLCEval(Volts(els, [j \in 1..Len(els) |-> R(els[j].dc) ++ (c ** R(els[j].rf))], x, n))

\* frames: F is a 3 x 3 matrix, columns are the axes
FMul(F, x) == [i \in 1..3 |-> RSum([j \in 1..3 |-> F[i][j] ** x[j]])]
GradOf(tab) == [i \in 1..3 |-> At(tab, <<i>>)]
HessOf(tab) == [i \in 1..3 |-> [j \in 1..3 |-> At(tab, <<i, j>>)]]
InFrame1(F, g) == [i \in 1..3 |-> RSum([j \in 1..3 |-> F[j][i] ** g[j]])]
InFrame2(F, h) == [i \in 1..3 |-> [k \in 1..3 |-> RSum([p \in 1..9 |-> LET a == ((p - 1) \div 3) + 1 b == ((p - 1) % 3) + 1 IN F[a][i] ** (F[b][k] ** h[a][b])])]]
Pick1(v, ax) == [i \in 1..Len(ax) |-> v[ax[i] + 1]]
Pick2(h, ax) == [i \in 1..Len(ax) |-> [k \in 1..Len(ax) |-> h[ax[i] + 1][ax[k] + 1]]]

\* The columns of v are orthonormal and diagonalise h with the values w: the
\* eigenvalues of h are then w (up to tol)
MaxAbs2(h) == RMaxAbs([i \in 1..Len(h) |-> RMaxAbs(h[i])])
Orthonormal(v, tol) == \A a \in 1..Len(v) : \A b \in 1..Len(v) :
   RNear(RSum([i \in 1..Len(v) |-> v[i][a] ** v[i][b]]), IF a = b THEN ROne ELSE RZero, tol)
Eigen(h, v, w, tol) == \A a \in 1..Len(h) : \A i \in 1..Len(h) :
   RNear(RSum([k \in 1..Len(h) |-> h[i][k] ** v[k][a]]), w[a] ** v[i][a], tol)
=============================================================================
