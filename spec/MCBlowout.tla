----------------------------- MODULE MCBlowout -----------------------------
(* Walks of a particle through stages in any order and with any steps.  The    *)
(* field never jumps inside a stage, its zero (simple) and reference point      *)
(* (custom) fall back steadily with the laser, the mean over two steps is the    *)
(* mean over their union, and an entrance forgets what came before.            *)
EXTENDS Blowout, TLC
CONSTANTS Len0, Ref
VARIABLES c, st, gain
vars == <<c, st, gain>>
Stage(k, h, x, o, n, d, g, a, b, r) ==
  [kind |-> k, len |-> Len0, half |-> h, xc |-> x, off |-> o, sn |-> n, sd |-> d,
   g |-> g, e0 |-> a, e1 |-> b, xi0 |-> r]
Stages == << Stage("simple", 4, 1, 0, 1, 5, 0, 0, 0, 0), Stage("simple", 8, -2, 3, 2, 5, 0, 0, 0, 0),
             Stage("custom", 8, 0, 0, 1, 5, -3, 2, 4, 1), Stage("custom", 8, 0, 0, 2, 5, 2, -1, -3, -2),
             Stage("focus", 8, 0, 0, 1, 5, 0, 0, 0, 0) >>
Init == /\ c = [stages |-> Stages, ps |-> << [x |-> 2, y |-> -1, xi |-> Ref] >>]
        /\ st = InitState(c) /\ gain = 0
Enter == /\ st.e = 0 \/ st.t = Len0
         /\ \E e \in DOMAIN Stages : st' = Effect(c, st, [a |-> "enter", e |-> e])
         /\ gain' = 0
Step == /\ st.e # 0
        /\ \E t \in (st.t + 1)..Len0 :
             /\ st' = Effect(c, st, [a |-> "step", t |-> t])
             /\ gain' = gain + (t - st.t) * Ez2(Stages[st.e], Ref, st.t, t)
        
Next == (Enter \/ Step) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
(* The gain does not depend on the steps: it is that of one step from the entrance. *)
PathFree == st.e # 0 => gain = st.t * Ez2(Stages[st.e], Ref, 0, st.t)
(* Zero of the field at the instant t, in units of 1/sd. *)
Falls == \A e \in DOMAIN Stages : LET s == Stages[e] IN
   s.kind = "simple" => \A t \in 0..Len0 :
      Ez2(s, s.xc - s.half + s.off - 0, t, t) = 2 * s.sn * t
Start == \A e \in DOMAIN Stages : LET s == Stages[e] IN
   /\ s.kind = "custom" => Ez2(s, s.xi0, 0, 0) = 2 * s.sd * s.e0
   /\ s.kind = "simple" => Ez2(s, s.xc - s.half + s.off, 0, 0) = 0
Accepts == st.e # 0 /\ st.t < Len0 =>
   LET s == Stages[st.e]
       good == << <<Gradient(s) * 2, -Gradient(s), Ez2(s, Ref, st.t, Len0)>> >>
   IN /\ Failed(Guards(c, st, [a |-> "step", t |-> Len0, F |-> good])) = {}
      /\ s.kind # "focus" =>
           Failed(Guards(c, st, [a |-> "step", t |-> Len0,
               F |-> << <<good[1][1], good[1][2], good[1][3] + s.sn>> >>])) # {}
=============================================================================
