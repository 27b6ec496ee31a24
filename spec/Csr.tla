-------------------------------- MODULE Csr --------------------------------
(***************************************************************************)
(* Coherent synchrotron radiation along a sequence of elements.            *)
(*                                                                         *)
(* cfg.els[e] = [len (mm), csr, n (outputs, 0: none)].                      *)
(* State: the elements forming the current trajectory (oldest first) and    *)
(* the settings (step length in mm, longest step of the trajectory, bins).  *)
(* The recorder compares what an element did to the bunch with a reference   *)
(* calculation for many candidate histories and step layouts and reports     *)
(* all that explain it.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CeilDiv(a, b) == -((-a) \div b)
InitState(cfg) == [hist |-> <<>>, step |-> cfg.step, bins |-> cfg.bins]

Parts(el) == IF el.n = 0 THEN 1 ELSE el.n
(* Fewest equal steps that are not too long and include all outputs. *)
Steps(el, step) == Parts(el) * CeilDiv(el.len, Parts(el) * step)
(* A layout is right if it is equal steps, none too long, that include every *)
(* output; one more step per output is a matter of rounding.                 *)
GoodLayout(el, step, s) ==
  /\ s > 0 /\ s % Parts(el) = 0 /\ s * step >= el.len
  /\ s <= Steps(el, step) + Parts(el)

Track(cfg, st, e) ==
  IF cfg.els[e].csr THEN [st EXCEPT !.hist = Append(st.hist, e)]
  ELSE [st EXCEPT !.hist = <<>>]

Explained(cfg, st, ev, useHist, useSteps) ==
  LET el == cfg.els[ev.e] IN
  \E k \in DOMAIN ev.explains :
    LET x == ev.explains[k] IN
    IF ~el.csr THEN x.steps = 0
    ELSE /\ useHist => x.hist = st.hist
         /\ useSteps => GoodLayout(el, st.step, x.steps)

Guards(cfg, st, ev) ==
  CASE ev.a = "track" ->
       << <<"P24.history", Explained(cfg, st, ev, TRUE, FALSE)>>,
          <<"P24.steps", Explained(cfg, st, ev, FALSE, TRUE)>>,
          <<"P24.result", Explained(cfg, st, ev, TRUE, TRUE)>>,
          <<"P24.outputs", ev.outs = cfg.els[ev.e].n /\ ev.where>> >>
    [] ev.a = "settings" -> <<>>
    [] ev.a = "reset" -> <<>>
    [] ev.a = "law" -> << <<ev.law, ev.dev <= ev.max>> >>
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  CASE ev.a = "track" -> Track(cfg, st, ev.e)
    [] ev.a = "settings" -> [st EXCEPT !.step = ev.step, !.bins = ev.bins]
    [] ev.a = "reset" -> [st EXCEPT !.hist = <<>>]
    [] OTHER -> st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
