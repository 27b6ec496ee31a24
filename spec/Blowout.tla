------------------------------ MODULE Blowout ------------------------------
(***************************************************************************)
(* Analytical blowout wakefields along consecutive stages.                  *)
(*                                                                         *)
(* Lengths are in ticks, times in ticks/c, fields in a unit per stage.       *)
(* cfg.stages[e] = [kind, len, half, xc, off, sn, sd, g, e0, e1, xi0]:        *)
(*   half: half a plasma wavelength; xc: centre of the laser pulse, which     *)
(*   falls behind the speed of light by sn/sd ticks per tick;                 *)
(*   simple - focusing and accelerating gradient 1, no accelerating field at   *)
(*            half behind the laser, shifted by off                           *)
(*   custom - gradient g, longitudinal field e0 with slope e1 at xi0 at the    *)
(*            entrance                                                        *)
(*   focus  - focusing gradient 1 only                                       *)
(* cfg.ps[i] = [x, y, xi]: particles too stiff to move noticeably.            *)
(* State: current stage (0: none) and position in it.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

InitState(cfg) == [e |-> 0, t |-> 0]

Gradient(s) == IF s.kind = "custom" THEN s.g ELSE 1
(* Mean longitudinal field between positions t1 and t2, times 2*sd. *)
Ez2(s, xi, t1, t2) ==
  CASE s.kind = "simple" -> 2 * s.sd * (xi - (s.xc - s.half + s.off)) + s.sn * (t1 + t2)
    [] s.kind = "custom" -> 2 * s.sd * (s.e0 + s.e1 * (xi - s.xi0)) + s.e1 * s.sn * (t1 + t2)
    [] OTHER -> 0

(* A bunch goes from the current position to ev.t; F[i] = <<Fx, Fy, Fz>> is  *)
(* the momentum gained, divided by charge and time, in units of the field     *)
(* (transverse) and of 1/(2 sd) of it (longitudinal).                        *)
StepGuards(cfg, st, ev) ==
  IF st.e = 0 THEN << <<"ANY.no-failure", FALSE>> >> ELSE
  LET s == cfg.stages[st.e] IN
  << <<"P31.all-particles", Len(ev.F) = Len(cfg.ps)>>,
     <<"P31.focusing", \A i \in DOMAIN cfg.ps : i \in DOMAIN ev.F =>
          /\ ev.F[i][1] = Gradient(s) * cfg.ps[i].x
          /\ ev.F[i][2] = Gradient(s) * cfg.ps[i].y>>,
     <<"P31.accelerating", \A i \in DOMAIN cfg.ps : i \in DOMAIN ev.F =>
          ev.F[i][3] = Ez2(s, cfg.ps[i].xi, st.t, ev.t)>> >>

Guards(cfg, st, ev) ==
  CASE ev.a = "enter" -> <<>>
    [] ev.a = "step" -> StepGuards(cfg, st, ev)
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  CASE ev.a = "enter" -> [e |-> ev.e, t |-> 0]
    [] ev.a = "step" -> [st EXCEPT !.t = ev.t]
    [] OTHER -> st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
