------------------------------- MODULE Phase -------------------------------
(***************************************************************************)
(* Representations of the phase space of one bunch.                        *)
(*                                                                         *)
(* A particle is a record of integers: x, y, xi in units of length; its    *)
(* direction d and energy e, indices in the tables below; its weight w.    *)
(* Momenta are multiples of 1/(K*D): with p = pn/pd the total momentum and *)
(* (a, b, c)/P its direction, gamma = gn/pd is rational too.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* <<a, b, c, P>> with a^2 + b^2 + c^2 = P^2 *)
Dirs == << <<2, 3, 6, 7>>, <<-1, 2, 2, 3>>, <<4, -4, 7, 9>>, <<-2, -6, 9, 11>>,
           <<6, 2, 3, 7>>, <<0, 0, 1, 1>>, <<0, 3, 4, 5>>, <<-3, 0, 4, 5>> >>
(* <<pn, pd, gn>> with pn^2 + pd^2 = gn^2 *)
Energies == << <<3, 4, 5>>, <<4, 3, 5>>, <<12, 5, 13>>, <<15, 8, 17>>, <<24, 7, 25>> >>
K == 840    \* common multiple of all pd
D == 3465   \* common multiple of all P
Tables == /\ \A d \in DOMAIN Dirs : LET v == Dirs[d] IN
               v[1]*v[1] + v[2]*v[2] + v[3]*v[3] = v[4]*v[4] /\ D % v[4] = 0
          /\ \A e \in DOMAIN Energies : LET v == Energies[e] IN
               v[1]*v[1] + v[2]*v[2] = v[3]*v[3] /\ K % v[2] = 0

Mom(p, k) == Energies[p.e][1] * (K \div Energies[p.e][2])
             * Dirs[p.d][k] * (D \div Dirs[p.d][4])
Gam(p) == Energies[p.e][3] * (K \div Energies[p.e][2])
Slope(p, k) == Dirs[p.d][k] * (D \div Dirs[p.d][4])

Row(b, f) == [i \in 1..Len(b) |->
  CASE f = "x" -> b[i].x [] f = "y" -> b[i].y [] f = "xi" -> b[i].xi
    [] f = "px" -> Mom(b[i], 1) [] f = "py" -> Mom(b[i], 2) [] f = "pz" -> Mom(b[i], 3)
    [] f = "xp" -> Slope(b[i], 1) [] f = "yp" -> Slope(b[i], 2)
    [] f = "g" -> Gam(b[i]) [] f = "w" -> b[i].w]
(* Rows of each representation; "q" is the charge in units of the        *)
(* elementary charge, zq per particle of weight one.                       *)
Layout(kind) ==
  CASE kind = "bunch" -> <<"x", "y", "xi", "px", "py", "pz", "q">>
    [] kind = "6d" -> <<"x", "px", "y", "py", "xi", "pz">>
    [] kind = "6dq" -> <<"x", "px", "y", "py", "xi", "pz", "q">>
    [] kind = "alt" -> <<"x", "xp", "y", "yp", "xi", "g">>
    [] kind = "plain" -> <<"x", "y", "xi", "px", "py", "pz", "w">>
    [] kind = "charge" -> <<"q">>
Rows(cfg, b, kind) ==
  [k \in 1..Len(Layout(kind)) |->
     IF Layout(kind)[k] = "q" THEN [i \in 1..Len(b) |-> cfg.zq * b[i].w]
     ELSE Row(b, Layout(kind)[k])]

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
WSum(b) == SumTo(Row(b, "w"), Len(b))
WG(b) == SumTo([i \in 1..Len(b) |-> b[i].w * Gam(b[i])], Len(b))
WXi(b) == SumTo([i \in 1..Len(b) |-> b[i].w * b[i].xi], Len(b))

InitState(cfg) == cfg.bunch

(* Representation ev.kind has been read. *)
GetGuards(cfg, st, ev) ==
  << <<"P12.rows", ev.rows = Rows(cfg, st, ev.kind)>>,
     <<"P12.mean-energy", ev.kind = "alt" => ev.wg = WG(st)>>,
     <<"P12.read-only", ev.plain = Rows(cfg, st, "plain")>> >>
(* The bunch has been set from (or rebuilt with) a representation that was *)
(* read from the particles ev.src.                                         *)
SetGuards(cfg, st, ev) ==
  << <<"P12.round-trip", ev.plain = Rows(cfg, ev.src, "plain")>>,
     <<"P12.total-charge", ev.qtot = cfg.zq * WSum(ev.src)>> >>
(* The bunch has been moved to the mean position ev.to (times total weight)*)
MoveGuards(cfg, st, ev) ==
  LET W == WSum(st) IN
  << <<"P12.rigid-shift",
        /\ \A i \in 1..Len(st) : ev.xiw[i] = W * st[i].xi + ev.to - WXi(st)
        /\ Len(ev.xiw) = Len(st)>>,
     <<"P12.shift-only-xi", ev.rest = SelectSeq(Rows(cfg, st, "plain"), LAMBDA r : TRUE)>> >>

Guards(cfg, st, ev) ==
  CASE ev.a = "get" -> GetGuards(cfg, st, ev)
    [] ev.a = "set" -> SetGuards(cfg, st, ev)
    [] ev.a = "move" -> MoveGuards(cfg, st, ev)
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) == IF ev.a = "set" THEN ev.src ELSE st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
