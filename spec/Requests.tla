------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Requests that cannot be honoured are refused, and refusing leaves the    *)
(* bunch and everything else as it was.                                     *)
(*                                                                         *)
(* ask: an object is made and, if that succeeds, used, with option what =   *)
(*      value (a name) or what = n (a number); ok: it went through; bunch:   *)
(*      token of the state of the bunch afterwards.                         *)
(* use: a valid tracking with objects that have been through refused        *)
(*      requests; got/want: token of the result and of the result of new     *)
(*      objects on a copy of the bunch.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Names(what) ==
  CASE what = "bunch_pusher" -> {"boris", "rk4"}
    [] what = "plasma_pusher" -> {"rk4", "ab5"}
    [] what = "p_shape" -> {"linear", "cubic"}
    [] what = "wakefield_model" -> {"none", "simple_blowout", "custom_blowout", "focusing_blowout",
                                    "cold_fluid_1d", "quasistatic_2d"}
    [] what = "profile" -> {"inverse_square", "exponential", "gaussian", "callable"}
    [] what \in {"density", "channel"} -> {"float", "callable"}
    [] what = "lens" -> {"plain", "wakefields with density"}
    [] what = "sum" -> {"same"}
    [] what = "species" -> {"different names"}
    [] what = "envelope" -> {"after grid"}
    [] OTHER -> {}
Numeric == {"substeps"}
Valid(ev) == IF ev.what = "substeps" THEN ev.n >= 1
             ELSE IF ev.what = "steps" THEN ev.n = ev.m      \* as many steps as bunches
             ELSE ev.value \in Names(ev.what)

InitState(cfg) == [bunch |-> 1, refused |-> 0]

Guards(cfg, st, ev) ==
  CASE ev.a = "ask" -> << <<"P35.refused", Valid(ev) \/ ~ev.ok>>,
                          <<"P35.accepted", Valid(ev) => ev.ok>>,
                          <<"P35.untouched", ~ev.ok => ev.bunch = st.bunch>> >>
    [] ev.a = "use" -> << <<"P35.usable", ev.got = ev.want>> >>
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  CASE ev.a = "ask" -> [bunch |-> ev.bunch, refused |-> st.refused + (IF ev.ok THEN 0 ELSE 1)]
    [] ev.a = "use" -> [st EXCEPT !.bunch = ev.got]
    [] OTHER -> st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
