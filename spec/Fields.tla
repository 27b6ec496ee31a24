------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* Superposition of the fields of an element.                              *)
(*                                                                         *)
(* cfg.fields: catalogue of field objects; cfg.bunches[b]: particles, each  *)
(* with an integer position (x, y, xi), direction d and energy e.          *)
(* The fields of the catalogue are linear in the position:                 *)
(*   lin   - a user-defined field: comps[k] = <<c0, cx, cy, cxi>>          *)
(*           (<<>> if the component is not defined), k = Ex..Bz            *)
(*   quad  - quadrupole of gradient g    lens - plasma lens of strength g  *)
(*   custom, simple, focus - blowout wakefields                            *)
(*   wake  - a numerical wakefield; its force alone is measured first      *)
(* State: alone[f][b] = force of field f alone on the particles of bunch b  *)
(* (for fields of kind wake, once measured).                               *)
(***************************************************************************)
EXTENDS Vec

Lin(c, p) == IF c = <<>> THEN 0 ELSE c[1] + c[2]*p.x + c[3]*p.y + c[4]*p.xi
(* <<E, B>> of a field at a particle *)
FieldAt(f, p) ==
  CASE f.k = "lin" -> << [j \in 1..3 |-> Lin(f.comps[j], p)],
                         [j \in 1..3 |-> Lin(f.comps[j + 3], p)] >>
    [] f.k = "quad" -> << Zero3, <<-f.g * p.y, -f.g * p.x, 0>> >>
    [] f.k = "lens" -> << Zero3, <<f.g * p.y, -f.g * p.x, 0>> >>
    [] f.k = "custom" -> << <<f.g * p.x, f.g * p.y, f.e0 + f.e1 * (p.xi - f.xi0)>>, Zero3 >>
    [] f.k = "simple" -> << <<f.g * p.x, f.g * p.y, f.g * (p.xi - f.xi0)>>, Zero3 >>
    [] f.k = "focus" -> << <<f.g * p.x, f.g * p.y, 0>>, Zero3 >>
    [] OTHER -> << Zero3, Zero3 >>

InitState(cfg) == [alone |-> [f \in 1..Len(cfg.fields) |->
                               [b \in 1..Len(cfg.bunches) |-> <<>>]]]

Contribution(cfg, st, f, b, i) ==
  IF cfg.fields[f].k = "wake" THEN st.alone[f][b][i]
  ELSE LET eb == FieldAt(cfg.fields[f], cfg.bunches[b][i])
       IN Force(cfg.bunches[b][i], eb[1], eb[2])

RECURSIVE Total(_, _, _, _, _)
Total(cfg, st, fs, b, i) ==
  IF fs = <<>> THEN Zero3
  ELSE Add(Contribution(cfg, st, Head(fs), b, i), Total(cfg, st, Tail(fs), b, i))
Wakes(cfg, fs) == Cardinality({j \in DOMAIN fs : cfg.fields[fs[j]].k = "wake"})

(* An element with fields ev.fs acts on bunches ev.bs; ev.F[j][i] is the    *)
(* force on particle i of the j-th of them.                                *)
ActGuards(cfg, st, ev) ==
  LET first == \E j \in DOMAIN ev.fs : cfg.fields[ev.fs[j]].k = "wake"
                  /\ st.alone[ev.fs[j]][ev.bs[1]] = <<>>
  IN << <<"P13.all-particles", /\ Len(ev.F) = Len(ev.bs)
            /\ \A j \in DOMAIN ev.bs : Len(ev.F[j]) = Len(cfg.bunches[ev.bs[j]])>>,
        <<"P13.sum", ~first =>
            \A j \in DOMAIN ev.bs : \A i \in DOMAIN cfg.bunches[ev.bs[j]] :
              i \in DOMAIN ev.F[j] /\
              Near(ev.F[j][i], Total(cfg, st, ev.fs, ev.bs[j], i),
                   3 * Wakes(cfg, ev.fs))>>,
        <<"P13.first-finite", first =>
            \A j \in DOMAIN ev.F : \A i \in DOMAIN ev.F[j] : \A k \in 1..3 :
               ev.F[j][i][k] # -999999>> >>

(* User-defined fields are evaluated with the positions, the time and the   *)
(* constants they were given: user[f].c[k] = <<k1, x, y, xi, t, k2>> are the *)
(* coefficients of component k (<<>>: not defined), user[f].k the constants. *)
User(u, k, p, t) == LET c == u.c[k] IN
  IF c = <<>> THEN 0
  ELSE c[1]*u.k[1] + c[2]*p.x + c[3]*p.y + c[4]*p.xi + c[5]*t + c[6]*u.k[2]
RECURSIVE UserSum(_, _, _, _)
UserSum(us, k, p, t) == IF us = <<>> THEN 0
                        ELSE User(Head(us), k, p, t) + UserSum(Tail(us), k, p, t)
GatherGuards(ev) ==
  << <<"P13.arguments", Len(ev.v) = 6 /\ \A k \in 1..6 :
        ev.v[k] = [i \in DOMAIN ev.pts |-> UserSum(ev.user, k, ev.pts[i], ev.t)]>> >>

Guards(cfg, st, ev) ==
  CASE ev.a = "act" -> ActGuards(cfg, st, ev)
    [] ev.a = "gather" -> GatherGuards(ev)
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  IF ev.a = "act" /\ Len(ev.fs) = 1 /\ cfg.fields[ev.fs[1]].k = "wake"
     /\ st.alone[ev.fs[1]][ev.bs[1]] = <<>>
  THEN [st EXCEPT !.alone[ev.fs[1]][ev.bs[1]] = ev.F[1]]
  ELSE st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
