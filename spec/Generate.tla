------------------------------ MODULE Generate ------------------------------
(***************************************************************************)
(* Generation of particle bunches.  A seed stands for a list of random       *)
(* numbers per particle (normal numbers ux, vx, uy, vy, zz, ee in units of    *)
(* 1/Res).  They are learned from a bunch of unit size and then determine      *)
(* every other bunch of that seed.                                           *)
(*                                                                         *)
(* Request r: ax, ay: sizes; bx, by: divergences (emittance a*b, beta a/b);    *)
(* fx, fy: Twiss alpha; ene: mean energy; sp: spread in %; st: duration; c:    *)
(* centre; ox, oy: offsets; tx, ty: pointing angles; n: particles; q: charge.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Res == 10000
Abs(a) == IF a < 0 THEN -a ELSE a
Near(a, b, tol) == Abs(a - b) <= tol

(* Coordinates of a particle with random numbers d: transverse position and     *)
(* slope (pointing removed), position and relative energy.                     *)
X(r, d) == r.ax * d.ux + r.ox * Res
Y(r, d) == r.ay * d.uy + r.oy * Res
XP(r, d) == r.bx * (d.vx - r.fx * d.ux)
YP(r, d) == r.by * (d.vy - r.fy * d.uy)
Z(r, d) == r.st * d.zz + r.c * Res
DE(r, d) == r.sp * d.ee
Unit(r) == /\ r.ax = 1 /\ r.ay = 1 /\ r.bx = 1 /\ r.by = 1 /\ r.fx = 0 /\ r.fy = 0
           /\ r.sp = 1 /\ r.st = 1 /\ r.c = 0 /\ r.ox = 0 /\ r.oy = 0 /\ r.tx = 0 /\ r.ty = 0

InitState(cfg) == [draws |-> [s \in 1..cfg.seeds |-> <<>>]]

Particles(r, ds, ps) ==
  << <<"P29.number", Len(ps) = r.n>>,
     <<"P29.position", Len(ps) = Len(ds) => \A i \in DOMAIN ds :
          /\ Near(ps[i].x, X(r, ds[i]), r.ax + 2)
          /\ Near(ps[i].y, Y(r, ds[i]), r.ay + 2)>>,
     <<"P29.slope", Len(ps) = Len(ds) => \A i \in DOMAIN ds :
          /\ Near(ps[i].xp, XP(r, ds[i]), r.bx * (1 + Abs(r.fx)) + 2)
          /\ Near(ps[i].yp, YP(r, ds[i]), r.by * (1 + Abs(r.fy)) + 2)>>,
     <<"P29.longitudinal", Len(ps) = Len(ds) => \A i \in DOMAIN ds :
          /\ Near(ps[i].z, Z(r, ds[i]), r.st + 2)
          /\ Near(ps[i].e, DE(r, ds[i]), r.sp + 2)>>,
     <<"P29.length", \A i \in DOMAIN ps : Near(ps[i].z, r.c * Res, 3 * r.st * Res + 1)>> >>
Common(r, g) ==
  << <<"P29.charge", g.q = r.q /\ g.equal>>,
     <<"P29.species", g.species>>,
     <<"P29.name", IF r.name = "" THEN g.fresh ELSE g.name = r.name>> >>
(* A random sample of unit size: moments in units of 1/Res, five sigma. *)
Sample(m, n) ==
  LET tol == m.tol IN
  << <<"P29.standard", \A k \in DOMAIN m.mean : Abs(m.mean[k]) <= tol>>,
     <<"P29.standard", \A k \in DOMAIN m.var :
         Near(m.var[k], IF k = 5 THEN 9733 ELSE Res, 2 * tol)>>,
     <<"P29.standard", \A k \in DOMAIN m.cov : Abs(m.cov[k]) <= tol>> >>

Guards(cfg, st, ev) ==
  CASE ev.a = "learn" ->
       IF Unit(ev.r) THEN Common(ev.r, ev.got) \o
         << <<"P29.number", Len(ev.ps) = ev.r.n>>,
            <<"P29.length", \A i \in DOMAIN ev.ps : Abs(ev.ps[i].z) <= 3 * Res + 1>> >>
       ELSE << <<"ANY.no-failure", FALSE>> >>
    [] ev.a = "make" -> Common(ev.r, ev.got) \o Particles(ev.r, st.draws[ev.s], ev.ps)
    [] ev.a = "sample" -> Sample(ev.m, ev.n)
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  IF ev.a = "learn"
  THEN [st EXCEPT !.draws[ev.s] =
          [i \in DOMAIN ev.ps |-> [ux |-> ev.ps[i].x, vx |-> ev.ps[i].xp, uy |-> ev.ps[i].y,
                                   vy |-> ev.ps[i].yp, zz |-> ev.ps[i].z, ee |-> ev.ps[i].e]]]
  ELSE st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
