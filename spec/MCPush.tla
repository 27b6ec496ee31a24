------------------------------- MODULE MCPush -------------------------------
(* Histories of quarter turns and boosts: momenta stay on shell, opposite   *)
(* charges undo each other's turns, four turns are none, and the rate       *)
(* equation is consistent: magnetic fields do no work and a particle at the *)
(* drift velocity of crossed fields feels no force.                         *)
EXTENDS Push, TLC
VARIABLES c, st
Init == /\ c \in [ds : {<<d>> : d \in DOMAIN Dirs}, e : DOMAIN Energies,
                  zq : {-2, -1, 1}, mm : {1}]
        /\ st = InitState(c)
Turns == [a : {"turn"}, k : 1..3, s : {-1, 1}]
Boosts == [a : {"boost"}, e : DOMAIN Energies]
Next == \E ev \in Turns \union Boosts : st' = Effect(c, st, ev) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, st>>
OnShell == Dot(st.u[1], st.u[1]) = P(c, 1) * P(c, 1)
Opposite(ev) == [ev EXCEPT !.s = -ev.s]
Undo == \A ev \in Turns : /\ Effect(c, Effect(c, st, ev), Opposite(ev)) = st
          /\ Effect(c, Effect(c, Effect(c, Effect(c, st, ev), ev), ev), ev) = st
          /\ Effect([c EXCEPT !.zq = -c.zq], st, ev) = Effect(c, st, Opposite(ev))
NoWork == \A k \in 1..3 : Dot(st.u[1], Cross(st.u[1], Axis(k))) = 0
Selector == \A k \in 1..3 :
   LET q == [d |-> c.ds[1], e |-> st.e] IN
   Force(q, Scale(-Pn(st), Cross(Dir(q), Axis(k))), Scale(Den(q), Axis(k))) = Zero3
TabOK == Tables
=============================================================================
