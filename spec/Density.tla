------------------------------ MODULE Density ------------------------------
(***************************************************************************)
(* Plasma density seen along plasma stages and ramps.                      *)
(*                                                                         *)
(* Positions are integer ticks.  An element: kind k in flat (uniform        *)
(* density v), table (user function tab), up and down (ramps with profile    *)
(* prof: invsq, exp, gauss or custom user function tab), len, and for the     *)
(* preset profiles either an explicit decay length d or the number m of decay *)
(* lengths until the position pos (0: not given, the end) at which the low     *)
(* density is reached.  Densities of the presets are observed as the          *)
(* integer Fall: (d+u)^2 for d^2 n_top/n, 2^u for (n_top/n)^d and 2^(u^2) for   *)
(* (n_top/n)^(d^2), u being the distance from the top of the ramp.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Presets == {"invsq", "exp", "gauss"}
Profiles == Presets \cup {"custom"}
Models == {"focusing_blowout", "simple_blowout", "custom_blowout", "cold_fluid_1d",
           "quasistatic_2d", "none", "field"}
Types == {"float", "callable", "numpy"}
Ramp(e) == e.k \in {"up", "down"}
Valid(e) == /\ e.model \in Models
            /\ IF Ramp(e) THEN e.prof \in Profiles ELSE e.type \in Types
            /\ (e.model = "quasistatic_2d" => e.channel \in {"float", "callable"})

Down(e) == IF e.pos = 0 THEN e.len ELSE e.pos
Decay(e) == IF e.mode = "decay" THEN e.d ELSE Down(e) \div e.m
FallAt(prof, d, u) == CASE prof = "invsq" -> (d + u) * (d + u)
                        [] prof = "exp" -> 2^u
                        [] prof = "gauss" -> 2^(u * u)
                        [] OTHER -> 0
(* distance from the top of a ramp *)
U(e, z) == IF e.k = "up" THEN e.len - z ELSE z
Value(e, z) == CASE e.k = "flat" -> e.v
                 [] e.k = "table" -> e.tab[z + 1]
                 [] Ramp(e) /\ e.prof = "custom" -> e.tab[U(e, z) + 1]
                 [] OTHER -> FallAt(e.prof, Decay(e), U(e, z))
(* Largest density along the element, as observed. *)
RECURSIVE MaxOf(_, _)
MaxOf(s, n) == IF n = 1 THEN s[1]
               ELSE LET m == MaxOf(s, n - 1) IN IF s[n] > m THEN s[n] ELSE m
Highest(e) == CASE e.k = "flat" -> e.v
                [] e.k = "table" \/ (Ramp(e) /\ e.prof = "custom") -> MaxOf(e.tab, e.len + 1)
                [] OTHER -> FallAt(e.prof, Decay(e), 0)
(* Positions at which a numerical model evaluates the plasma. *)
Updates(e, dz) == [i \in 1..(e.len \div dz + 1) |-> (i - 1) * dz]

InitState(cfg) == [made |-> [i \in DOMAIN cfg.els |-> FALSE]]
El(cfg, ev) == cfg.els[ev.e]

Guards(cfg, st, ev) ==
  CASE ev.a = "make" -> << <<"P27.rejected", ev.ok = Valid(El(cfg, ev))>> >>
    [] ev.a = "density" ->
       << <<"P27.profile", Len(ev.v) = Len(ev.z)
             /\ \A i \in DOMAIN ev.z : i \in DOMAIN ev.v => ev.v[i] = Value(El(cfg, ev), ev.z[i])>> >>
    [] ev.a = "kick" ->     \* one step centred at position c, particles at xi
       << <<"P27.position", Len(ev.v) = Len(ev.xi)
             /\ \A i \in DOMAIN ev.xi : i \in DOMAIN ev.v =>
                  ev.v[i] = Value(El(cfg, ev), IF El(cfg, ev).model = "focusing_blowout"
                                               THEN ev.c + ev.xi[i] ELSE ev.c)>> >>
    [] ev.a = "grid" ->     \* density of the numerical models at output n
       << <<"P27.position", ev.v = Value(El(cfg, ev), ev.z)>> >>
    [] ev.a = "calls" ->    \* positions at which user functions were evaluated
       << <<"P27.position", ev.dens = Updates(El(cfg, ev), ev.dz)>>,
          <<"P27.position", El(cfg, ev).channel = "callable" => ev.chan = Updates(El(cfg, ev), ev.dz)>> >>
    [] ev.a = "args" ->     \* what a custom ramp profile is given
       << <<"P27.custom", ev.same>> >>
    [] ev.a = "auto" -> << <<"P27.step", ev.v = Highest(El(cfg, ev))>> >>
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  IF ev.a = "make" THEN [st EXCEPT !.made[ev.e] = TRUE] ELSE st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
