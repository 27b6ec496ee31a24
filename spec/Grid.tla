-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Particles and r-z grids: deposition, gathering, resampling.             *)
(*                                                                         *)
(* Grid of nz x nr values, cell-centred in r (first value at dr/2), with    *)
(* two guard cells on each side.  Positions are in eighths of a cell:      *)
(* zc = 8*(z - z_min)/dz, rc = 8*(r - dr/2)/dr (rc = -4 is the axis).       *)
(* Deposited weights are integers in units of 1/Unit(shape).               *)
(* State: the deposition array (with guard cells).                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CeilDiv(a, b) == -((-a) \div b)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
  ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

SR == 15360                     \* unit of radial shape factors
SZ(shape) == IF shape = "linear" THEN 8 ELSE 384
Unit(shape) == SR * SZ(shape)

(* --- shape factors ------------------------------------------------------ *)
Reflect(j, n) == IF j < 0 THEN -1 - j ELSE IF j >= n THEN 2*n - 1 - j ELSE j
(* Cubic spline at distance k quarters (0..4) from the lower neighbour:      *)
(* weights of the four neighbours in 1/384                                  *)
Cubic(k) == << (4-k)*(4-k)*(4-k), 3*k*k*k - 24*k*k + 256,
               3*(4-k)*(4-k)*(4-k) - 24*(4-k)*(4-k) + 256, k*k*k >>
(* Coefficient of the volume correction between values n-1 and n, times S.   *)
RuytenLin(n) == IF n < 1 THEN 0 ELSE 60 \div n         \* S/(256 n)
RuytenCub(n) == IF n < 1 THEN 0 ELSE IF n = 1 THEN 717 ELSE 720 \div n

(* Radial shape: weight (times S) of value j = 0..nr-1. *)
RLin(nr, ruyten, rc, j) ==
  IF rc < 0 THEN (IF j = 0 THEN SR ELSE 0)
  ELSE IF rc > 8*(nr - 1) THEN (IF j = nr - 1 THEN SR ELSE 0)
  ELSE LET n == CeilDiv(rc, 8)           \* upper neighbour
           k == rc - 8*(n - 1)           \* 1..8 eighths above the lower one
           c == IF ruyten THEN RuytenLin(n) * (8 - k) * k ELSE 0
       IN IF j = n - 1 THEN (SR \div 8) * (8 - k) - c
          ELSE IF j = n THEN (SR \div 8) * k + c ELSE 0
RCub(nr, ruyten, rc, j) ==
  LET n == CeilDiv(rc, 8)
      k == (rc - 8*(n - 1)) \div 2
      w == Cubic(k)
      c == IF ruyten THEN RuytenCub(n) * (4 - k) * k ELSE 0
      f == << 40*w[1], 40*w[2] - c, 40*w[3] + c, 40*w[4] >>
  IN SumOver(f, {m \in 1..4 : Reflect(n - 3 + m, nr) = j})
RShape(shape, nr, ruyten, rc, j) ==
  IF shape = "linear" THEN RLin(nr, ruyten, rc, j) ELSE RCub(nr, ruyten, rc, j)
ZShape(shape, nz, zc, i) ==
  IF shape = "linear"
  THEN LET lo == zc \div 8 IN
       IF i = lo THEN 8 - (zc % 8) ELSE IF i = lo + 1 THEN zc % 8 ELSE 0
  ELSE LET n == CeilDiv(zc, 8)
           w == Cubic((zc - 8*(n - 1)) \div 2)
       IN SumOver(w, {m \in 1..4 : Reflect(n - 3 + m, nz) = i})

Inside(nz, nr, p) == p.zc >= 0 /\ p.zc <= 8*(nz - 1) /\ p.rc <= 8*nr - 4
Contribution(g, p, i, j) ==      \* i, j: physical indices from 0
  IF ~Inside(g.nz, g.nr, p) THEN 0
  ELSE p.w * ZShape(g.shape, g.nz, p.zc, i) * RShape(g.shape, g.nr, g.ruyten, p.rc, j)
RECURSIVE Added(_, _, _, _)
Added(g, ps, i, j) == IF ps = <<>> THEN 0
  ELSE Contribution(g, Head(ps), i, j) + Added(g, Tail(ps), i, j)
IsPhys(g, a, b) == a \in 3..(g.nz + 2) /\ b \in 3..(g.nr + 2)
Deposited(g, arr, ps) ==
  [a \in 1..(g.nz + 4) |-> [b \in 1..(g.nr + 4) |->
     IF IsPhys(g, a, b) THEN arr[a][b] + Added(g, ps, a - 3, b - 3) ELSE arr[a][b]]]

RECURSIVE Total(_, _, _)
Total(arr, rows, cols) == SumOver([x \in (rows \X cols) |-> arr[x[1]][x[2]]], rows \X cols)

(* --- gathering ----------------------------------------------------------- *)
Wz(nz, zc, i) == LET lo == zc \div 8 IN
  IF i = lo THEN 8 - (zc % 8) ELSE IF i = lo + 1 THEN zc % 8 ELSE 0
(* Radial weight of value j for a component that is odd or even in r.        *)
Wr(nr, rc, j, odd) ==
  IF rc < 0 THEN (IF j = 0 THEN (IF odd THEN 8 + 2*rc ELSE 8) ELSE 0)
  ELSE LET lo == rc \div 8 IN
       IF j = lo THEN 8 - (rc % 8) ELSE IF j = lo + 1 THEN rc % 8 ELSE 0
OnGrid(nz, nr, p) == p.zc >= 0 /\ p.zc <= 8*(nz - 1) /\ p.rc <= 8*(nr - 1)
(* Value (times 64) of field f (physical values) at particle p. *)
Gathered(nz, nr, f, p, odd) ==
  IF ~OnGrid(nz, nr, p) THEN 0
  ELSE LET zs == {p.zc \div 8, (p.zc \div 8) + 1} \intersect (0..(nz - 1))
           lo == IF p.rc < 0 THEN 0 ELSE p.rc \div 8
           rs == {lo, lo + 1} \intersect (0..(nr - 1))
       IN SumOver([x \in (zs \X rs) |-> f[x[1] + 1][x[2] + 1] * Wz(nz, p.zc, x[1])
                                       * Wr(nr, p.rc, x[2], odd)], zs \X rs)
(* All components (times 64*5) for a particle at azimuth (ax, ay)/5.          *)
Felt(g, e, p) ==
  LET er == Gathered(g.nz, g.nr, e.er, p, TRUE)
      ez == Gathered(g.nz, g.nr, e.ez, p, FALSE)
      bt == Gathered(g.nz, g.nr, e.bt, p, TRUE)
  IN << er * p.ax, er * p.ay, 5 * ez, -bt * p.ay, bt * p.ax, 0 >>

(* --- resampling ---------------------------------------------------------- *)
(* Linear interpolation in z; in r too, with linear extrapolation below the  *)
(* first and above the last value.                                           *)
LerpR(nr, row, rc) ==   \* times 8
  LET lo == IF rc < 0 THEN 0 ELSE IF rc \div 8 > nr - 2 THEN nr - 2 ELSE rc \div 8
  IN row[lo + 1] * (8 - (rc - 8*lo)) + row[lo + 2] * (rc - 8*lo)
Resampled(nz, nr, f, zc, rc) ==   \* times 64
  LET lo == IF zc \div 8 > nz - 2 THEN nz - 2 ELSE zc \div 8
  IN LerpR(nr, f[lo + 1], rc) * (8 - (zc - 8*lo)) + LerpR(nr, f[lo + 2], rc) * (zc - 8*lo)

(* --- monitor -------------------------------------------------------------- *)
InitState(cfg) == cfg.start

DepositGuards(cfg, st, ev) ==
  LET e == Deposited(cfg, st, ev.ps)
      rows == 1..(cfg.nz + 4)
      cols == 1..(cfg.nr + 4)
      inside == SelectSeq(ev.ps, LAMBDA p : Inside(cfg.nz, cfg.nr, p))
      shaped == Len(ev.arr) = cfg.nz + 4 /\ \A a \in DOMAIN ev.arr : Len(ev.arr[a]) = cfg.nr + 4
  IN << <<"P16.shape", ev.arr = e>>,
        <<"P16.guard-cells", shaped => \A a \in rows, b \in cols :
             ~IsPhys(cfg, a, b) => ev.arr[a][b] = st[a][b]>>,
        <<"P16.conserved", shaped /\ (\A a \in rows, b \in cols : ev.arr[a][b] # -999999) =>
             Total(ev.arr, rows, cols) = Total(st, rows, cols)
               + Unit(cfg.shape) * SumOver([i \in DOMAIN inside |-> inside[i].w], DOMAIN inside)>> >>
GatherGuards(cfg, st, ev) ==
  << <<"P17.interpolation", \A i \in DOMAIN ev.ps :
        ev.out[i] = [k \in 1..6 |-> ev.pre[i][k] + Felt(cfg, ev, ev.ps[i])[k]]>> >>
ScalarGuards(cfg, st, ev) ==
  << <<"P17.interpolation", \A i \in DOMAIN ev.ps :
        ev.out[i] = Gathered(cfg.nz, cfg.nr, ev.f, ev.ps[i], ev.odd)>> >>
ResampleGuards(cfg, st, ev) ==
  << <<"P17.resampling", \A a \in DOMAIN ev.zs : \A b \in DOMAIN ev.rs :
        /\ ev.re[a][b] = Resampled(cfg.nz, cfg.nr, ev.f, ev.zs[a], ev.rs[b])
        /\ ev.im[a][b] = Resampled(cfg.nz, cfg.nr, ev.h, ev.zs[a], ev.rs[b])>> >>

(* Arbitrary (real) geometry and positions strictly inside the grid: sums in *)
(* millionths of the total weight, cz: longitudinal centroid minus that of    *)
(* the particles in millionths of dz; linear fields gathered, in millionths.  *)
RealGuards(cfg, st, ev) ==
  << <<"P16.conserved", ev.sum - ev.w \in -5..5>>,
     <<"P16.guard-cells", ev.guard = 0>>,
     <<"P16.centroid", ev.cz \in -5..5>>,
     <<"P16.local", ev.far = 0>> >>
RealGatherGuards(cfg, st, ev) ==
  << <<"P17.interpolation", \A i \in DOMAIN ev.got : \A k \in DOMAIN ev.got[i] :
        ev.got[i][k] - ev.want[i][k] \in -5..5>> >>

Guards(cfg, st, ev) ==
  CASE ev.a = "deposit" -> DepositGuards(cfg, st, ev)
    [] ev.a = "gather" -> GatherGuards(cfg, st, ev)
    [] ev.a = "scalar" -> ScalarGuards(cfg, st, ev)
    [] ev.a = "resample" -> ResampleGuards(cfg, st, ev)
    [] ev.a = "real" -> RealGuards(cfg, st, ev)
    [] ev.a = "realgather" -> RealGatherGuards(cfg, st, ev)
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) == IF ev.a = "deposit" THEN ev.arr ELSE st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
