------------------------------ MODULE MCLaser ------------------------------
(* A pulse through every sequence of up to Depth stages out of a catalogue:  *)
(* at every exit it has propagated exactly the length of the stages that     *)
(* evolve it, on one grid, with the first scheme exactly after changes of    *)
(* the sub-step.                                                             *)
EXTENDS Laser, TLC
CONSTANTS Depth
Catalogue ==
  [k \in 1..6 |-> CASE k = 1 -> [len |-> 60, dz |-> 25, sub |-> 1, grid |-> 1, evolve |-> TRUE, phase |-> TRUE]
    [] k = 2 -> [len |-> 60, dz |-> 70, sub |-> 3, grid |-> 1, evolve |-> TRUE, phase |-> FALSE]
    [] k = 3 -> [len |-> 120, dz |-> 33, sub |-> 1, grid |-> 1, evolve |-> TRUE, phase |-> TRUE]
    [] k = 4 -> [len |-> 60, dz |-> 25, sub |-> 2, grid |-> 1, evolve |-> FALSE, phase |-> TRUE]
    [] k = 5 -> [len |-> 60, dz |-> 25, sub |-> 1, grid |-> 2, evolve |-> TRUE, phase |-> TRUE]
    [] OTHER -> [len |-> 180, dz |-> 61, sub |-> 3, grid |-> 1, evolve |-> TRUE, phase |-> TRUE]]
Cfg == [stages |-> Catalogue]
VARIABLES st, depth, busy, total, hist
vars == <<st, depth, busy, total, hist>>
Init == st = InitState(Cfg) /\ depth = 0 /\ busy = FALSE /\ total = 0 /\ hist = <<>>
Go(k) == /\ ~busy /\ depth < Depth /\ depth' = depth + 1
         /\ IF Acceptable(st, Catalogue[k])
            THEN busy' = TRUE /\ st' = Enter(st, Cfg, k)
            ELSE busy' = FALSE /\ st' = [Enter(st, Cfg, k) EXCEPT !.i = 0]
         /\ UNCHANGED <<total, hist>>
Eval == /\ busy /\ st.i <= Updates(Catalogue[st.cur])
        /\ st' = IF st.i = 0 THEN Begin(st, Cfg) ELSE Advance(st, Cfg)
        /\ hist' = IF st.i > 0 /\ Catalogue[st.cur].evolve
                   THEN Append(hist, <<Period(Catalogue[st.cur]), Catalogue[st.cur].sub, Kinds(st)>>)
                   ELSE hist
        /\ UNCHANGED <<depth, busy, total>>
Exit == /\ busy /\ st.i = Updates(Catalogue[st.cur]) + 1
        /\ busy' = FALSE /\ st' = [st EXCEPT !.i = 0]
        /\ total' = total + (IF Catalogue[st.cur].evolve THEN Catalogue[st.cur].len ELSE 0)
        /\ UNCHANGED <<depth, hist>>
Next == (\E k \in 1..6 : Go(k)) \/ Eval \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Eval) /\ WF_vars(Exit)
Propagated == ~busy => st.prop = total
OneGrid == [][st.on => (st'.on /\ st'.grid = st.grid)]_vars
Monotone == [][st'.prop >= st.prop]_vars
(* A centred step never follows a step of a different duration. *)
Consistent == \A n \in 2..Len(hist) :
   "centred" \in hist[n][3] => hist[n][1] * hist[n-1][2] = hist[n-1][1] * hist[n][2]
FirstIsFirst == Len(hist) > 0 => hist[1][3] = {"first"}
Finishes == [](busy => <>(~busy))
=============================================================================
