------------------------------- MODULE MCWake -------------------------------
(* A plasma column passed from the front to the back of the grid, slice by      *)
(* slice, as the quasi-static models do.  Every pair of calculations with any     *)
(* sources satisfies the guards; columns that look at sources behind, remember    *)
(* the previous calculation or ignore a bunch do not (see Teeth).                *)
EXTENDS Wake
CONSTANTS N, Q
Cfg == [n |-> N, nr |-> 1, reach |-> 1, lreach |-> 1]
Bunch(f) == [i \in 1..N |-> [i |-> i, r |-> 1, q |-> f[i]]]
(* column: value carried to the next slice; potential at a slice *)
RECURSIVE Column(_, _, _)
Column(s, i, start) ==
  IF i > N THEN start ELSE 3 * Column(s, i + 1, start) + s[i]
Potential(s, start) == [i \in 0..(N + 1) |-> IF i > N THEN start ELSE IF i < 1 THEN Column(s, 1, start)
                                             ELSE Column(s, i, start)]
Field(s, start) == LET p == Potential(s, start) IN
  [i \in 1..N |-> (p[i + 1] - p[i - 1]) * 7 + p[i]]
NonCausal(s) == [i \in 1..N |-> s[1] + 5 * s[i]]
NoLaser == [pol |-> "none", c |-> 0, i |-> 0]
Ev(f, g, tok) == [a |-> "wake", bs |-> <<Bunch(f), Bunch(g)>>, laser |-> NoLaser, same |-> TRUE,
                  tok |-> tok]
Sum2(f, g) == [i \in 1..N |-> f[i] + g[i]]
Srcs == [1..N -> 0..Q]
VARIABLES st, last, k
Init == st = InitState(Cfg) /\ last = <<>> /\ k = 0
Next == /\ k < 2 /\ k' = k + 1
        /\ \E f \in Srcs, g \in {[i \in 1..N |-> 0], [i \in 1..N |-> IF i = 2 THEN 1 ELSE 0]} :
             LET ev == Ev(f, g, Field(Sum2(f, g), 0)) IN
             /\ last' = Failed(Guards(Cfg, st, ev))
             /\ st' = Effect(Cfg, st, ev)
Spec == Init /\ [][Next]_<<st, last, k>>
Accepted == k > 0 => last = {}
(* Mutants are rejected by the named clause after some first calculation. *)
Zero == [i \in 1..N |-> 0]
One(j) == [i \in 1..N |-> IF i = j THEN 1 ELSE 0]
After(ev) == Effect(Cfg, InitState(Cfg), ev)
Fails(st0, ev) == Failed(Guards(Cfg, st0, ev))
Teeth ==
  LET e0 == Ev(Zero, Zero, NonCausal(Zero)) IN
  /\ "P28.causal" \in Fails(After(e0), Ev(One(1), Zero, NonCausal(One(1))))
  /\ "P28.sources" \in Fails(After(Ev(One(3), Zero, Field(One(3), 0))),
                             Ev(Zero, One(3), Field(One(3), 1)))
  /\ "P28.responds" \in Fails(After(Ev(One(2), Zero, Field(One(2), 0))),
                              Ev(One(2), One(3), Field(One(2), 0)))
  /\ "P28.quiet" \in Fails(InitState(Cfg), Ev(Zero, Zero, Field(Zero, 1)))
=============================================================================
