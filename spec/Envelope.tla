------------------------------ MODULE Envelope ------------------------------
(***************************************************************************)
(* The discrete envelope equation and its tridiagonal solver.              *)
(*                                                                         *)
(* Complex numbers are pairs of integers (fixed point).  For slice j and    *)
(* radial value k (both from 0), new being the advanced envelope, src the   *)
(* one two half-steps earlier (first scheme: the present one), the step     *)
(* solves                                                                  *)
(*   (L - chi/2 - c it^2) (new+src) + f (i K it - 3/2 iz it + i it D) (new-src) *)
(*   + 2 c it^2 a + 2 f e1 iz it (new-src)_{j+1} - f/2 e2 iz it (new-src)_{j+2} = 0 *)
(* with f = 2, c = 0 for the first scheme and f = c = 1 for the centred one; *)
(* L is half the radial Laplacian for cell-centred values, D the slope of    *)
(* the phase on axis, e1 and e2 the corresponding rotations.                 *)
(* Phases on axis are quarter turns s (with phases, iz is in units of 2/pi,   *)
(* approximated by 226/355).                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Z == <<0, 0>>
Add(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Mul(p, q) == <<p[1]*q[1] - p[2]*q[2], p[1]*q[2] + p[2]*q[1]>>
Sc(n, p) == <<n * p[1], n * p[2]>>
(* Multiplication by i^n *)
Turn(n, p) == CASE n % 4 = 0 -> p
                [] n % 4 = 1 -> <<-p[2], p[1]>>
                [] n % 4 = 2 -> <<-p[1], -p[2]>>
                [] OTHER -> <<p[2], -p[1]>>
Abs(n) == IF n < 0 THEN -n ELSE n
Max(a, b) == IF a > b THEN a ELSE b

(* --- tridiagonal systems ---------------------------------------------- *)
Row(lo, ma, up, p, i) ==
  LET n == Len(ma)
      m == Mul(ma[i], p[i])
      l == IF i > 1 THEN Mul(lo[i-1], p[i-1]) ELSE Z
      u == IF i < n THEN Mul(up[i], p[i+1]) ELSE Z
  IN Add(m, Add(l, u))
Solves(lo, ma, up, d, p) ==
  /\ Len(p) = Len(ma)
  /\ \A i \in DOMAIN ma : Row(lo, ma, up, p, i) = d[i]

(* --- envelope equation -------------------------------------------------- *)
At(f, j, k, nr) == IF k < 0 \/ k >= nr THEN Z ELSE f[j+1][k+1]
Q(e) == IF e.ph THEN 355 ELSE 1
Zt(e) == e.it * e.iz * (IF e.ph THEN 226 ELSE 1)          \* Q * iz * it
Tw(e, j) == IF e.ph THEN e.s[j+2] - e.s[j+1] ELSE 0        \* quarter turns from j to j+1
Residual(e, j, k) ==
  LET nr == Len(e.chi[1])
      c == IF e.first THEN 0 ELSE 1
      f == IF e.first THEN 2 ELSE 1
      src == IF e.first THEN e.cur ELSE e.old
      M == 2*(2*k + 1)
      S(jj, kk) == Add(At(e.new, jj, kk, nr), At(src, jj, kk, nr))
      D(jj, kk) == Sub(At(e.new, jj, kk, nr), At(src, jj, kk, nr))
      t1 == Tw(e, j)
      t2 == Tw(e, j + 1)
      \* Laplacian, susceptibility and second time derivative
      r1 == Add(Sc(-e.ir2 * M * Q(e) - e.chi[j+1][k+1] * (2*k+1) * Q(e)
                   - c * e.it * e.it * M * Q(e), S(j, k)),
                Add(Sc(2*k * e.ir2 * Q(e), S(j, k-1)),
                    Sc((2*k+2) * e.ir2 * Q(e), S(j, k+1))))
      \* first time derivative
      r2 == Mul(<<-3 * f * (M \div 2) * Zt(e),
                  f * (e.K * e.it * M * Q(e)
                       + (IF e.ph THEN e.it * e.iz * (3*t1 - t2) * (M \div 2) * Q(e) ELSE 0))>>,
                D(j, k))
      r3 == Sc(2 * c * e.it * e.it * M * Q(e), At(e.cur, j, k, nr))
      r4 == Add(Sc(2 * f * M * Zt(e), Turn(-t1, D(j+1, k))),
                Sc(-f * (M \div 2) * Zt(e), Turn(-t1 - t2, D(j+2, k))))
  IN Add(Add(r1, r2), Add(r3, r4))
(* Effect of rounding every value to an integer *)
Slack(e, j, k) ==
  LET c == IF e.first THEN 0 ELSE 1
      f == IF e.first THEN 2 ELSE 1
      M == 2*(2*k + 1)
      t1 == Tw(e, j)
      t2 == Tw(e, j + 1)
  IN (4*e.ir2 + e.chi[j+1][k+1] + 3*c*e.it*e.it + f*e.K*e.it
       + f*e.it*e.iz*Abs(3*t1 - t2)) * M * Q(e) + f * 5 * M * Zt(e) + 5
EquationHolds(e) ==
  \A j \in 0..(Len(e.chi) - 1), k \in 0..(Len(e.chi[1]) - 1) :
    LET r == Residual(e, j, k) IN
    Abs(r[1]) <= Slack(e, j, k) /\ Abs(r[2]) <= Slack(e, j, k)

InitState(cfg) == 0
Guards(cfg, st, ev) ==
  CASE ev.a = "tdma" -> << <<"P19.tridiagonal", Solves(ev.lo, ev.ma, ev.up, ev.d, ev.p)>> >>
    [] ev.a = "step" ->
       << <<"P19.equation", EquationHolds(ev)>>,
          <<"P19.equation", ev.kept>> >>   \* the present one becomes the old one
    [] ev.a = "law" -> << <<"P19." \o ev.law, ev.dev <= 1000>> >>
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) == st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
