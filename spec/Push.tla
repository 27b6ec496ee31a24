-------------------------------- MODULE Push --------------------------------
(***************************************************************************)
(* Motion of particles in uniform fields and in lenses.                    *)
(*                                                                         *)
(* Units: time T0, length c*T0, momentum m*c of the species, fields such   *)
(* that e*E0*T0 = m_e*c.  A species has charge cfg.zq (in e) and mass      *)
(* cfg.mm (in m_e).  Particle i has direction u[i] (an integer vector of   *)
(* length P[i]) and all have energy e (an index in Energies).              *)
(* State: u, e - changed by quarter turns in a magnetic field and by       *)
(* acceleration along the direction of motion.                             *)
(***************************************************************************)
EXTENDS Vec

Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Axis(k) == [j \in 1..3 |-> IF j = k THEN 1 ELSE 0]

InitState(cfg) == [u |-> [i \in DOMAIN cfg.ds |-> <<Dirs[cfg.ds[i]][1], Dirs[cfg.ds[i]][2], Dirs[cfg.ds[i]][3]>>],
                   e |-> cfg.e]
P(cfg, i) == Dirs[cfg.ds[i]][4]
Pn(st) == Energies[st.e][1]
Pd(st) == Energies[st.e][2]
Gn(st) == Energies[st.e][3]

(* --- rates of change over a very short step ---------------------------- *)
(* dr: velocity of (x, y, z) times gn*P; dxi: rate of xi times gn*P;        *)
(* dp: rate of the momentum times mm*gn*P.                                  *)
RateGuards(cfg, st, ev) ==
  << <<"P14.velocity", \A i \in DOMAIN st.u : ev.dr[i] = Scale(Pn(st), st.u[i])>>,
     <<"P14.co-moving", \A i \in DOMAIN st.u :
           ev.dxi[i] = Pn(st) * st.u[i][3] - Gn(st) * P(cfg, i)>>,
     <<"P14.lorentz-force", \A i \in DOMAIN st.u :
           ev.dp[i] = Scale(cfg.zq,
               Add(Scale(Gn(st) * P(cfg, i), ev.E),
                   Scale(Pn(st), Cross(st.u[i], ev.B))))>> >>

(* --- electric field only, any number of steps of any length ------------ *)
(* dp: change of momentum times mm.                                        *)
KickGuards(cfg, st, ev) ==
  << <<"P14.electric-impulse", \A i \in DOMAIN st.u :
         ev.dp[i] = Scale(cfg.zq * ev.tau, ev.E)>> >>

(* --- no field: straight line for a time of tau ------------------------- *)
(* dr, dxi: displacements times gn*P; p: momentum times pd*P.               *)
FreeGuards(cfg, st, ev) ==
  << <<"P14.straight-line", \A i \in DOMAIN st.u :
         /\ ev.dr[i] = Scale(ev.tau * Pn(st), st.u[i])
         /\ ev.dxi[i] = ev.tau * (Pn(st) * st.u[i][3] - Gn(st) * P(cfg, i))
         /\ ev.p[i] = Scale(Pn(st), st.u[i])>> >>

(* --- magnetic field of sign ev.s along axis ev.k for a quarter period --- *)
(* p: momentum times pd*P; dr: displacement times zq*B*pd*P/mm, except its  *)
(* component along the field, which is divided by pi/2 and sign-free.       *)
Turned(cfg, st, ev, i) ==
  LET b == Axis(ev.k) IN
    Add(Scale(Dot(st.u[i], b), b), Scale(Sgn(cfg.zq) * ev.s, Cross(st.u[i], b)))
TurnGuards(cfg, st, ev) ==
  << <<"P14.magnetic-rotation", \A i \in DOMAIN st.u :
         ev.p[i] = Scale(Pn(st), Turned(cfg, st, ev, i))>>,
     <<"P14.energy-kept", \A i \in DOMAIN st.u :
         Dot(ev.p[i], ev.p[i]) = Pn(st)*Pn(st)*P(cfg, i)*P(cfg, i)>>,
     <<"P14.gyration", \A i \in DOMAIN st.u :
         LET b == Axis(ev.k)
             dp == Scale(Pn(st), Sub(Turned(cfg, st, ev, i), st.u[i]))
         IN /\ Cross(ev.dr[i], b) = dp
            /\ ev.dr[i][ev.k] = Pn(st) * st.u[i][ev.k]>> >>

(* --- electric field along the motion, from energy st.e to ev.e --------- *)
(* p: momentum times pd'*P; dr: displacement times zq*E/mm*pd*pd'*P.        *)
BoostGuards(cfg, st, ev) ==
  LET n == Energies[ev.e] IN
  << <<"P14.acceleration", \A i \in DOMAIN st.u : ev.p[i] = Scale(n[1], st.u[i])>>,
     <<"P14.work-energy", \A i \in DOMAIN st.u :
         ev.dr[i] = Scale(n[3] * Pd(st) - Gn(st) * n[2], st.u[i])>> >>

(* --- magnetic field in any direction, for any angle per step ------------ *)
(* length, along: change of the length of the momentum and of its component *)
(* along the field (1e-9 of the momentum).                                  *)
GyrateGuards(cfg, st, ev) ==
  << <<"P14.energy-kept-any-step", \A i \in DOMAIN ev.length : ev.length[i] <= 5>>,
     <<"P14.along-the-field", \A i \in DOMAIN ev.along : ev.along[i] <= 5>> >>
(* --- electric and magnetic field ---------------------------------------- *)
(* e1, e2: deviation from the exact motion (1e-11) with n and 2n steps:      *)
(* second order (Boris) or fourth (RK4).                                    *)
OrderGuards(cfg, st, ev) ==
  << <<"P14.order", \A i \in DOMAIN ev.e1 :
         IF ev.push = "boris" THEN 3 * ev.e2[i] <= ev.e1[i] + 300
         ELSE 10 * ev.e2[i] <= ev.e1[i] + 300>>,
     <<"P14.converges", \A i \in DOMAIN ev.e2 :
         ev.e2[i] <= IF ev.push = "boris" THEN 60000000 ELSE 20000>> >>

(* --- lenses and quadrupoles ------------------------------------------- *)
(* ev.g: strength (positive: focusing for electrons, in x for a quadrupole) *)
(* pos[i] = <<x, y>> integer offsets.  dp as for rates.                     *)
LensB(kind, g, x, y) == IF kind = "lens" THEN <<g * y, -g * x, 0>>
                        ELSE <<-g * y, -g * x, 0>>
LensGuards(cfg, st, ev) ==
  << <<"P15.deflection", \A i \in DOMAIN st.u :
         ev.dp[i] = Scale(cfg.zq * Pn(st),
             Cross(st.u[i], LensB(ev.kind, ev.g, ev.pos[i][1], ev.pos[i][2])))>> >>
(* A fast particle with offsets X and slopes S (in units in which the focusing  *)
(* wave number is one) goes through a phase advance of a quarter period     *)
(* (phase = "quarter") or ln 2 (phase = "ln2").                             *)
(* Focusing planes turn (X, S) into (S, -X), defocusing ones into            *)
(* (5 X + 3 S, 5 S + 3 X)/4.                                               *)
Focusing(cfg, kind, g, plane) ==
  (IF kind = "lens" \/ plane = 1 THEN 1 ELSE -1) * Sgn(g) * (-Sgn(cfg.zq)) > 0
FocusGuards(cfg, st, ev) ==
  << <<"P15.focusing", \A pl \in 1..2 :
        (Focusing(cfg, ev.kind, ev.g, pl) /\ ev.phase = "quarter") =>
          \A i \in DOMAIN ev.X : ev.X2[i][pl] = ev.S[i][pl] /\ ev.S2[i][pl] = -ev.X[i][pl]>>,
     <<"P15.defocusing", \A pl \in 1..2 :
        (~Focusing(cfg, ev.kind, ev.g, pl) /\ ev.phase = "ln2") =>
          \A i \in DOMAIN ev.X :
             /\ ev.X2[i][pl] = 5 * ev.X[i][pl] + 3 * ev.S[i][pl]
             /\ ev.S2[i][pl] = 5 * ev.S[i][pl] + 3 * ev.X[i][pl]>> >>
(* A field quadrupole (A) and a transfer-map quadrupole (T).                *)
AgreeGuards(cfg, st, ev) ==
  << <<"P15.same-as-map", \A i \in DOMAIN ev.A : \A k \in DOMAIN ev.A[i] :
        Abs(ev.A[i][k] - ev.T[i][k]) <= 2>> >>

Guards(cfg, st, ev) ==
  CASE ev.a = "rate" -> RateGuards(cfg, st, ev)
    [] ev.a = "kick" -> KickGuards(cfg, st, ev)
    [] ev.a = "free" -> FreeGuards(cfg, st, ev)
    [] ev.a = "turn" -> TurnGuards(cfg, st, ev)
    [] ev.a = "boost" -> BoostGuards(cfg, st, ev)
    [] ev.a = "gyrate" -> GyrateGuards(cfg, st, ev)
    [] ev.a = "order" -> OrderGuards(cfg, st, ev)
    [] ev.a = "lens" -> LensGuards(cfg, st, ev)
    [] ev.a = "focus" -> FocusGuards(cfg, st, ev)
    [] ev.a = "agree" -> AgreeGuards(cfg, st, ev)
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  CASE ev.a = "turn" -> [st EXCEPT !.u = [i \in DOMAIN st.u |-> Turned(cfg, st, ev, i)]]
    [] ev.a = "boost" -> [st EXCEPT !.e = ev.e]
    [] OTHER -> st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
