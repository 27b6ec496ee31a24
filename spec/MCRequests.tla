----------------------------- MODULE MCRequests -----------------------------
(* All sequences of good and bad requests: the state of the bunch is that of   *)
(* the accepted ones alone.                                                  *)
EXTENDS Requests
CONSTANTS Depth
Whats == {"bunch_pusher", "plasma_pusher", "p_shape", "wakefield_model", "profile", "density",
          "channel", "lens", "sum", "species", "envelope"}
Asks == {[what |-> w, value |-> v, n |-> 0, m |-> 0] : w \in Whats,
           v \in (UNION {Names(x) : x \in Whats}) \cup {"unknown"}}
        \cup {[what |-> "substeps", value |-> "", n |-> n, m |-> 0] : n \in -1..2}
        \cup {[what |-> "steps", value |-> "", n |-> n, m |-> m] : n \in 0..2, m \in 1..2}
VARIABLES st, good, depth
vars == <<st, good, depth>>
Init == st = InitState([x |-> 0]) /\ good = 1 /\ depth = 0
Ask(q, tok) ==
  LET ev == [a |-> "ask", what |-> q.what, value |-> q.value, n |-> q.n, m |-> q.m,
             ok |-> Valid(q), bunch |-> IF Valid(q) THEN tok ELSE st.bunch]
  IN /\ Failed(Guards([x |-> 0], st, ev)) = {}
     /\ st' = Effect([x |-> 0], st, ev)
     /\ good' = IF Valid(q) THEN tok ELSE good
Next == depth < Depth /\ depth' = depth + 1 /\ \E q \in Asks, tok \in 1..3 : Ask(q, tok)
Spec == Init /\ [][Next]_vars
AcceptedOnly == st.bunch = good
(* every kind of request can be right and can be wrong *)
Decides == \A w \in Whats \cup {"substeps", "steps"} :
   (\E q \in Asks : q.what = w /\ Valid(q)) /\ (\E q \in Asks : q.what = w /\ ~Valid(q))
=============================================================================
