------------------------------ MODULE Analysis ------------------------------
(***************************************************************************)
(* Analysis of bunches.  Particles [x, y, z, px, py, g, w] in integer units  *)
(* (g: total energy); every reported quantity, or a function of it that is   *)
(* rational, is observed as an integer of 1/Scale and compared with the      *)
(* exact rational value.                                                     *)
(*   cfg.bunches[b] = [ps, prop, slices, exact]  exact: set of groups of      *)
(*   quantities that are rational for this bunch                             *)
(* State: the dictionaries stored in each file.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Scale == 10000
InitState(cfg) == [files |-> [f \in 1..cfg.files |-> 0]]

RECURSIVE SumTo(_, _, _)
SumTo(ps, F(_), n) == IF n = 0 THEN 0 ELSE F(ps[n]) + SumTo(ps, F, n - 1)
Sum(ps, F(_)) == SumTo(ps, F, Len(ps))
W(ps) == Sum(ps, LAMBDA p : p.w)
S(ps) == Sum(ps, LAMBDA p : p.w * p.w)
(* W^2 times the covariance *)
Cov(ps, F(_), G(_)) == W(ps) * Sum(ps, LAMBDA p : p.w * F(p) * G(p))
                       - Sum(ps, LAMBDA p : p.w * F(p)) * Sum(ps, LAMBDA p : p.w * G(p))
X(p) == p.x
Y(p) == p.y
Z(p) == p.z
PX(p) == p.px
PY(p) == p.py
G(p) == p.g
Det(ps, F(_), P(_)) == Cov(ps, F, F) * Cov(ps, P, P) - Cov(ps, F, P) * Cov(ps, F, P)
EmDen(ps) == W(ps) * W(ps) - S(ps)          \* sample covariance

Abs(a) == IF a < 0 THEN -a ELSE a
(* o / Scale is n / d up to rounding *)
Is(o, n, d) == Abs(o * d - n * Scale) <= 2 * Abs(d)
Root(a) == CHOOSE r \in 0..400 : r * r = a

(* --- slices ----------------------------------------------------------------- *)
(* Positions are 0, 2n or odd; slices have length 2, and leave out the tail    *)
(* particle at 0, except in the current profile.                               *)
Slice(p, n) == IF p.z \div 2 >= n THEN n ELSE p.z \div 2 + 1
InSlice(ps, n, k) == SelectSeq(ps, LAMBDA p : Slice(p, n) = k /\ p.z > 0)
Current(ps, n, k) == Sum(SelectSeq(ps, LAMBDA p : Slice(p, n) = k), LAMBDA p : p.w)
MaxOf(s) == CHOOSE m \in s : \A k \in s : k <= m
Peak(ps, n) == MaxOf({Current(ps, n, k) : k \in 1..n})
(* Averages over slices of q_k = root / den, as numerator and denominator. *)
RECURSIVE Product(_, _)
Product(D(_), n) == IF n = 0 THEN 1 ELSE D(n) * Product(D, n - 1)
RECURSIVE SliceSum(_, _, _, _)
SliceSum(N(_), D(_), n, k) == \* sum of N(k)/D(k) over k..1, times the product of all D
  IF k = 0 THEN 0 ELSE N(k) * (Product(D, n) \div D(k)) + SliceSum(N, D, n, k - 1)
SliceAvg(ps, n, Rt(_), Dn(_)) ==
  LET sl == [k \in 1..n |-> InSlice(ps, n, k)]
      D(k) == IF Len(sl[k]) = 0 THEN 1 ELSE Dn(sl[k])
      N(k) == IF Len(sl[k]) = 0 THEN 0 ELSE W(sl[k]) * Rt(sl[k])
      tot == Sum(SelectSeq(ps, LAMBDA p : p.z > 0), LAMBDA p : p.w)
  IN << SliceSum(N, D, n, n), Product(D, n) * tot >>
EmRootX(s) == IF Len(s) = 1 THEN 0 ELSE Root(Det(s, X, PX))
EmRootY(s) == IF Len(s) = 1 THEN 0 ELSE Root(Det(s, Y, PY))
EmDenS(s) == IF Len(s) = 1 THEN 1 ELSE EmDen(s)
EnRoot(s) == Root(Cov(s, G, G))
EnDen(s) == Sum(s, LAMBDA p : p.w * p.g)
IsAvg(o, r) == Is(o, r[1], r[2])

(* --- one entry of an analysis ------------------------------------------------- *)
EntryGuards(b, o) ==
  LET ps == b.ps
      w == W(ps)
      e == b.exact
  IN <<
   <<"P26.position", o.prop_dist = b.prop * Scale>>,
   <<"P26.mean", Is(o.x_avg, Sum(ps, LAMBDA p : p.w * p.x), w)
                 /\ Is(o.y_avg, Sum(ps, LAMBDA p : p.w * p.y), w)>>,
   <<"P26.size", Is(o.sigma_x2, Cov(ps, X, X), w * w) /\ Is(o.sigma_y2, Cov(ps, Y, Y), w * w)
                 /\ Is(o.sigma_z2, Cov(ps, Z, Z), w * w)>>,
   <<"P26.emittance", Is(o.emitt_x2, Det(ps, X, PX), EmDen(ps) * EmDen(ps))
                 /\ Is(o.emitt_y2, Det(ps, Y, PY), EmDen(ps) * EmDen(ps))>>,
   <<"P26.charge", o.q_tot = w * Scale>>,
   <<"P26.energy", e.energy => Is(o.avg_ene, Sum(ps, LAMBDA p : p.w * p.g), w)>>,
   <<"P26.spread", e.energy => Is(o.rel_ene_spread2, Cov(ps, G, G),
        Sum(ps, LAMBDA p : p.w * p.g) * Sum(ps, LAMBDA p : p.w * p.g))>>,
   <<"P26.pointing", e.energy =>
        Is(o.theta_x, Sum(ps, LAMBDA p : p.w * p.px), Sum(ps, LAMBDA p : p.w * p.g))
        /\ Is(o.theta_y, Sum(ps, LAMBDA p : p.w * p.py), Sum(ps, LAMBDA p : p.w * p.g))>>,
   <<"P26.twiss", e.twiss =>
        /\ Is(o.beta_em_x, Cov(ps, X, X), w * w) /\ Is(o.beta_em_y, Cov(ps, Y, Y), w * w)
        /\ Is(o.alpha_em_x, -Cov(ps, X, PX), w * w) /\ Is(o.alpha_em_y, -Cov(ps, Y, PY), w * w)
        /\ Is(o.unit_x, 1, 1) /\ Is(o.unit_y, 1, 1)>>,
   <<"P26.current", e.slices => o.i_peak = Peak(ps, b.slices) * Scale>>,
   <<"P26.slice-emittance", e.slices =>
        IsAvg(o.avg_slice_emitt_x, SliceAvg(ps, b.slices, EmRootX, EmDenS))
        /\ IsAvg(o.avg_slice_emitt_y, SliceAvg(ps, b.slices, EmRootY, EmDenS))>>,
   <<"P26.slice-spread", e.slices =>
        IsAvg(o.avg_slice_rel_ene_spread, SliceAvg(ps, b.slices, EnRoot, EnDen))>> >>

RECURSIVE Concat(_, _)
Concat(f, n) == IF n = 0 THEN <<>> ELSE Concat(f, n - 1) \o f[n]
Guards(cfg, st, ev) ==
  CASE ev.a = "analyze" ->
       << <<"P26.names", ev.names>>,
          <<"P26.order", Len(ev.out) = Len(ev.bs)>>,
          <<"P26.untouched", ev.same>> >>
       \o (IF Len(ev.out) # Len(ev.bs) THEN <<>>
           ELSE Concat([k \in DOMAIN ev.bs |-> EntryGuards(cfg.bunches[ev.bs[k]], ev.out[k])],
                       Len(ev.bs)))
    [] ev.a = "store" -> << <<"P26.file", ev.ok>> >>
    [] ev.a = "load" -> << <<"P26.file", \E k \in DOMAIN ev.equals : ev.equals[k] = st.files[ev.f]>> >>
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  IF ev.a = "store" THEN [st EXCEPT !.files[ev.f] = ev.d] ELSE st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
