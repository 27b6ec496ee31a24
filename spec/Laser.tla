------------------------------- MODULE Laser -------------------------------
(***************************************************************************)
(* Life of a laser envelope through consecutive plasma stages.             *)
(*                                                                         *)
(* A stage k has length cfg.stages[k].len and requested update period .dz   *)
(* (ticks), .sub sub-steps per update, .grid (token of the laser grid),     *)
(* .evolve and .phase.  The recorder identifies, for every field            *)
(* evaluation, which moves of the envelope explain its observed change:     *)
(* "init", "stay", or an advance <<kind, dt, sub, phase>> (kind "first":     *)
(* scheme that needs one earlier state, "centred": two) in the plasma of     *)
(* the previous evaluation.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

CeilDiv(a, b) == -((-a) \div b)
Updates(s) == CeilDiv(s.len, s.dz)
Period(s) == s.len \div Updates(s)

InitState(cfg) ==
  [on |-> FALSE, grid |-> 0, step |-> 0, cur |-> 0, i |-> 0, last |-> 0,
   fresh |-> TRUE, exact |-> TRUE, prop |-> 0, want |-> 0]

(* Duration of a sub-step as a pair, compared by cross multiplication. *)
SameStep(s, u) == Period(s) * u.sub = Period(u) * s.sub
Acceptable(st, s) == st.on => st.grid = s.grid

Enter(st, cfg, k) ==
  LET s == cfg.stages[k] IN
  [st EXCEPT !.cur = k, !.i = 0]
(* First evaluation in the stage: solver parameters are set. *)
Begin(st, cfg) ==
  LET s == cfg.stages[st.cur]
      same == st.last # 0 /\ SameStep(cfg.stages[st.last], s)
  IN [st EXCEPT !.on = TRUE, !.grid = s.grid, !.last = st.cur, !.i = 1,
        !.fresh = IF st.last # 0 /\ ~same THEN TRUE ELSE st.fresh,
        \* equal sub-steps of different stages may differ in the last digit
        !.exact = IF same /\ st.last # st.cur THEN FALSE
                  ELSE IF same THEN st.exact ELSE TRUE]
Advance(st, cfg) ==
  LET s == cfg.stages[st.cur] IN
  IF s.evolve THEN [st EXCEPT !.i = st.i + 1, !.fresh = FALSE, !.exact = TRUE,
                              !.prop = st.prop + Period(s)]
  ELSE [st EXCEPT !.i = st.i + 1]

Kinds(st) == IF st.fresh THEN {"first"}
             ELSE IF st.exact THEN {"centred"} ELSE {"first", "centred"}
Move(kind, dt, sub, phase) == [kind |-> kind, dt |-> dt, sub |-> sub, phase |-> phase]
Still(kind) == Move(kind, 0, 0, FALSE)
Allowed(st, cfg) ==
  LET s == cfg.stages[st.cur] IN
  IF st.i = 0 THEN {Still(IF st.on THEN "stay" ELSE "init")}
  ELSE IF ~s.evolve THEN {Still("stay")}
  ELSE {Move(k, Period(s), s.sub, s.phase) : k \in Kinds(st)}

(* Total length of the completed stages that evolve the pulse. *)
Wanted(st, cfg) == st.want + (IF cfg.stages[st.cur].evolve THEN cfg.stages[st.cur].len ELSE 0)

Guards(cfg, st, ev) ==
  CASE ev.a = "eval" ->
       << <<"P18.continuous", \E m \in DOMAIN ev.moves : ev.moves[m] \in Allowed(st, cfg)>>,
          <<"P18.grid", st.i = 0 => Acceptable(st, cfg.stages[st.cur])>>,
          <<"P18.schedule", st.i <= Updates(cfg.stages[st.cur])>>,
          <<"P18.shape", ev.shape = cfg.stages[st.cur].plasma>> >>
    [] ev.a = "enter" -> << <<"P18.shape", st.i = 0>> >>
    [] ev.a = "exit" ->
       << <<"P18.total-length", st.i = Updates(cfg.stages[st.cur]) + 1>>,
          <<"P18.total-length", st.prop = Wanted(st, cfg)>>,
          <<"P18.grid", Acceptable(st, cfg.stages[st.cur])>>,
          <<"P18.continuous", ev.still>> >>
    [] ev.a = "rejected" ->      \* the stage was refused on entering
       << <<"P18.grid", ~Acceptable(st, cfg.stages[st.cur])>>,
          <<"P18.grid", st.i = 0>>,
          <<"P18.continuous", ev.still>> >>
    [] ev.a = "reinit" ->        \* the user asks for initialisation again
       << <<"P18.continuous", ev.still>> >>
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  CASE ev.a = "enter" -> Enter(st, cfg, ev.k)
    [] ev.a = "eval" -> IF st.i = 0 THEN Begin(st, cfg) ELSE Advance(st, cfg)
    [] ev.a = "exit" -> [st EXCEPT !.i = 0, !.want = Wanted(st, cfg)]
    [] ev.a = "rejected" -> [st EXCEPT !.i = 0]
    [] OTHER -> st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
