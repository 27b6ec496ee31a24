------------------------------ MODULE Tracker ------------------------------
(***************************************************************************)
(* Event-driven tracking of particle bunches, numerically computed fields  *)
(* and outputs through one field-based element (wake_t/tracking).          *)
(*                                                                         *)
(* Time is measured in integer ticks of the element: the entrance is 0,    *)
(* the end is cfg.L.  A configuration is a record                          *)
(*   L        element length in ticks                                      *)
(*   nout     number of outputs (0: none), L % nout = 0                    *)
(*   pre      bunches are advanced to the outputs                          *)
(*   obs      outputs are observed as events of their own                  *)
(*   pusher   "boris" or "rk4"                                             *)
(*   bunches  <<[auto, dt, a2, a3, inj]>>  step rule and injection         *)
(*            position (-1: none; every step starting before it is         *)
(*            ballistic and therefore invisible to the fields)             *)
(*   fields   <<[dt, even]>>     requested update period                   *)
(*                                                                         *)
(* The state of the element is a record                                    *)
(*   bt       time reached by each bunch                                   *)
(*   fn       number of evaluations made of each field                     *)
(*   k        number of outputs taken                                      *)
(*   outs     positions of the bunches at each output                      *)
(*                                                                         *)
(* Every action is given by its guards, a sequence of <<name, holds>>      *)
(* pairs whose names start with the property they belong to, and by its    *)
(* effect.  The design model (MCTracker) explores all behaviours whose     *)
(* guards hold; the trace model (TraceTracker) evaluates the same guards   *)
(* on executions of the real code.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CeilDiv(a, b) == (a + b - 1) \div b
MinOf(a, b) == IF a < b THEN a ELSE b

NB(cfg) == Len(cfg.bunches)
NF(cfg) == Len(cfg.fields)

(* Update period of a field: even updates use the largest period that is   *)
(* not above the requested one and divides the element.                    *)
Period(cfg, f) ==
  IF cfg.fields[f].even
  THEN cfg.L \div CeilDiv(cfg.L, cfg.fields[f].dt)
  ELSE cfg.fields[f].dt

(* Step requested for bunch b at position p: constant, or the adaptive     *)
(* rule evaluated for the state of the bunch at p.                         *)
Want(cfg, b, p) ==
  LET r == cfg.bunches[b] IN
  IF r.auto THEN r.dt + ((p * r.a2) % r.a3) ELSE r.dt

(* End of the next regular step of a bunch at p. *)
RegularEnd(cfg, b, p) == MinOf(p + Want(cfg, b, p), cfg.L)

OutPos(cfg, k) == k * (cfg.L \div cfg.nout)
(* First output position behind p (only if there are outputs). *)
OutAfter(cfg, p) == OutPos(cfg, (p \div (cfg.L \div cfg.nout)) + 1)

(* End of the step that starts at p. *)
StepEnd(cfg, b, p) ==
  IF cfg.pre /\ cfg.nout > 0
  THEN MinOf(RegularEnd(cfg, b, p), OutAfter(cfg, p))
  ELSE RegularEnd(cfg, b, p)

(* Start of the first step of bunch b, from p on, in which it feels fields. *)
RECURSIVE Active(_, _, _)
Active(cfg, b, p) ==
  IF p >= cfg.L \/ p >= cfg.bunches[b].inj THEN p
  ELSE Active(cfg, b, StepEnd(cfg, b, p))

(* Position of bunch b seen by an event at time t: every regular step that *)
(* ends at or before t has been made, and every step that was shortened to *)
(* an output before t.  Ballistic steps are not observed, so the state of  *)
(* a bunch may lag behind its true position.                               *)
RECURSIVE Reached(_, _, _, _)
Reached(cfg, b, p, t) ==
  IF p >= cfg.L \/ p >= cfg.bunches[b].inj THEN p
  ELSE LET e == StepEnd(cfg, b, p) IN
       IF e < t \/ (e = t /\ e = RegularEnd(cfg, b, p))
       THEN Reached(cfg, b, e, t) ELSE p

FieldTime(cfg, st, f) == (st.fn[f] - 1) * Period(cfg, f)
FieldNext(cfg, st, f) == st.fn[f] * Period(cfg, f)

InitState(cfg) ==
  [bt |-> [b \in 1..NB(cfg) |-> 0], fn |-> [f \in 1..NF(cfg) |-> 0],
   k |-> 0, outs |-> <<>>]

(* Instants (in half ticks) at which the pusher evaluates the forces.      *)
GatherTimes(cfg, s, e) ==
  IF cfg.pusher = "boris" THEN <<s + e>> ELSE <<2*s, s + e, s + e, 2*e>>

(* A bunch at p is still due to make a step that ends at or before t. *)
BunchDue(cfg, st, b, t) ==
  LET p == Reached(cfg, b, st.bt[b], t) IN p < cfg.L /\ RegularEnd(cfg, b, p) <= t

(*------------------------------ Push -------------------------------------*)
(* ev: b, s, e (start and end), g (instants of force evaluation in half    *)
(* ticks), gx (same, from the particle positions), ft (per field, time of  *)
(* the evaluation in use)                                                  *)
PushGuards(cfg, st, ev) ==
  LET p == Active(cfg, ev.b, st.bt[ev.b])
      reg == RegularEnd(cfg, ev.b, p)
      onout == cfg.pre /\ cfg.nout > 0 /\ OutAfter(cfg, p) < reg
      atout == cfg.pre /\ cfg.nout > 0 /\ ev.e % (cfg.L \div cfg.nout) = 0
  IN
  << <<"P01.contiguous", cfg.bunches[ev.b].inj >= 0 \/ ev.s = p>>,
     <<"P11.first-field-step", cfg.bunches[ev.b].inj < 0 \/ ev.s = p>>,
     <<"P11.feels-all-fields", ev.felt = ev.e - ev.s>>,
     <<"P01.forward", ev.e > ev.s>>,
     <<"P01.not-beyond-end", ev.e <= cfg.L>>,
     <<"P01.particles-moved", ev.gx = ev.g>>,
     <<"P02.step-size",
        ev.s = p => ev.e = IF onout THEN OutAfter(cfg, p) ELSE reg>>,
     <<"P05.output-not-skipped", (ev.s = p /\ onout) => ev.e <= OutAfter(cfg, p)>>,
     <<"P05.no-step-for-output", (ev.s = p /\ ~cfg.pre) => ev.e = reg>>,
     <<"P04.instants", ev.g = GatherTimes(cfg, ev.s, ev.e)>>,
     <<"P04.field-in-use",
        \A f \in 1..NF(cfg) : ev.ft[f] = FieldTime(cfg, st, f)>>,
     <<"P04.field-not-outdated",
        \A f \in 1..NF(cfg) : FieldNext(cfg, st, f) >= ev.e>>,
     <<"P04.field-not-from-future",
        \A f \in 1..NF(cfg) :
           FieldTime(cfg, st, f) < ev.e
             \/ (atout /\ FieldTime(cfg, st, f) <= ev.e)>>,
     <<"P04.output-not-overtaken",
        cfg.obs /\ cfg.nout > 0 => OutPos(cfg, st.k) >= ev.e>> >>

(* A position off the grid of ticks has been reported by the guards above. *)
PushNext(cfg, st, ev) ==
  [st EXCEPT !.bt[ev.b] = IF ev.e \in 0..cfg.L THEN ev.e ELSE cfg.L]

(*------------------------------ Calc -------------------------------------*)
(* ev: f, t (clock of the field), seen (position of each bunch given to    *)
(* the evaluation)                                                         *)
CalcGuards(cfg, st, ev) ==
  << <<"P03.time", ev.t = FieldNext(cfg, st, ev.f)>>,
     <<"P03.not-beyond-end", ev.t <= cfg.L>>,
     <<"P03.initialised-then-evolved",
        /\ ev.init = IF st.fn[ev.f] = 0 THEN 1 ELSE 0
        /\ ev.evolve = IF st.fn[ev.f] = 0 THEN 0 ELSE 1>>,
     <<"P03.sees-bunches",
        /\ Len(ev.seen) = NB(cfg)
        /\ \A b \in 1..NB(cfg) : b \in DOMAIN ev.seen =>
              ev.seen[b] = Reached(cfg, b, st.bt[b], ev.t)>>,
     <<"P04.bunches-first",
        \A b \in 1..NB(cfg) : ~BunchDue(cfg, st, b, ev.t)>>,
     <<"P04.no-bunch-from-future",
        \A b \in 1..NB(cfg) : b \in DOMAIN ev.seen => ev.seen[b] <= ev.t>>,
     <<"P04.output-not-overtaken",
        cfg.obs /\ cfg.nout > 0 /\ ev.t > 0 => OutPos(cfg, st.k) >= ev.t>> >>

CalcNext(cfg, st, ev) == [st EXCEPT !.fn[ev.f] = @ + 1]

(*------------------------------- Out -------------------------------------*)
(* ev: t (global time of the output inside the element), pos (position of  *)
(* each bunch in the output)                                               *)
OutGuards(cfg, st, ev) ==
  LET t == OutPos(cfg, st.k) IN
  << <<"P05.count", st.k <= cfg.nout>>,
     <<"P05.position", ev.t = t>>,
     <<"P05.bunches-at-output",
        \A b \in 1..NB(cfg) :
          ev.pos[b] = IF cfg.pre THEN t ELSE Reached(cfg, b, st.bt[b], t)>>,
     <<"P04.bunches-before-output",
        \A b \in 1..NB(cfg) : cfg.pre \/ ~BunchDue(cfg, st, b, t)>>,
     <<"P04.fields-before-output",
        \A f \in 1..NF(cfg) : FieldNext(cfg, st, f) > t>> >>

OutNext(cfg, st, ev) ==
  [st EXCEPT !.k = @ + 1, !.outs = Append(@, ev.pos)]

(*------------------------------- End -------------------------------------*)
(* ev: pos (final propagation of each bunch), xpos (same, from the         *)
(* particles), outs (per bunch, positions of the returned snapshots), last *)
(* (per bunch, the last snapshot equals the final bunch), k0 (per bunch,   *)
(* the first snapshot equals the initial bunch), own (snapshots are of the *)
(* bunch in that place), flds (per field, did the field see the bunches as *)
(* objects)                                                                *)
RECURSIVE ShownAt(_, _, _, _)
(* Position of a bunch shown at an output at time t when bunches are not   *)
(* advanced to outputs.                                                    *)
ShownAt(cfg, b, p, t) ==
  IF p >= cfg.L THEN p
  ELSE LET e == RegularEnd(cfg, b, p) IN
       IF e <= t THEN ShownAt(cfg, b, e, t) ELSE p

EndGuards(cfg, st, ev) ==
  << <<"P01.final", \A b \in 1..NB(cfg) :
          cfg.bunches[b].inj >= 0 \/ (st.bt[b] = cfg.L)>>,
     <<"P11.all-field-steps", \A b \in 1..NB(cfg) :
          cfg.bunches[b].inj < 0 \/ Active(cfg, b, st.bt[b]) >= cfg.L>>,
     <<"P01.propagation", \A b \in 1..NB(cfg) : ev.pos[b] = cfg.L>>,
     <<"P01.particles", \A b \in 1..NB(cfg) : ev.xpos[b] = cfg.L>>,
     <<"P03.all-updates", \A f \in 1..NF(cfg) : FieldNext(cfg, st, f) > cfg.L>>,
     <<"P05.all-outputs", cfg.obs /\ cfg.nout > 0 => st.k = cfg.nout + 1>>,
     <<"P05.lists", Len(ev.outs) = NB(cfg)>>,
     <<"P05.snapshots",
        \A b \in 1..NB(cfg) : b \in DOMAIN ev.outs =>
          IF cfg.nout = 0 THEN Len(ev.outs[b]) = 0
          ELSE /\ Len(ev.outs[b]) = cfg.nout + 1
               /\ \A k \in 1..Len(ev.outs[b]) :
                    ev.outs[b][k] =
                      IF cfg.pre THEN OutPos(cfg, k - 1)
                      ELSE ShownAt(cfg, b, 0, OutPos(cfg, k - 1))>>,
     <<"P05.first-is-initial", \A b \in 1..NB(cfg) : ev.first[b]>>,
     <<"P05.last-is-final", \A b \in 1..NB(cfg) : ev.last[b]>>,
     <<"P05.own", \A b \in 1..NB(cfg) : ev.own[b]>> >>

(*------------------------------- List ------------------------------------*)
(* A list of ev.nd time steps given for ev.nb bunches.                     *)
ListGuards(cfg, st, ev) ==
  << <<"P02.wrong-list-rejected", (ev.nd # ev.nb) <=> (ev.raised = "ValueError")>>,
     <<"P02.right-list-accepted", ev.nd = ev.nb => ev.raised = "none">>,
     <<"P02.rejected-untouched", ev.nd # ev.nb => ~ev.touched>> >>

Guards(cfg, st, ev) ==
  CASE ev.a = "push" -> PushGuards(cfg, st, ev)
    [] ev.a = "calc" -> CalcGuards(cfg, st, ev)
    [] ev.a = "out"  -> OutGuards(cfg, st, ev)
    [] ev.a = "end"  -> EndGuards(cfg, st, ev)
    [] ev.a = "list" -> ListGuards(cfg, st, ev)
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>

Effect(cfg, st, ev) ==
  CASE ev.a = "push" -> PushNext(cfg, st, ev)
    [] ev.a = "calc" -> CalcNext(cfg, st, ev)
    [] ev.a = "out"  -> OutNext(cfg, st, ev)
    [] OTHER -> st

Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
