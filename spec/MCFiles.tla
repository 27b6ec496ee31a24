------------------------------ MODULE MCFiles ------------------------------
(* All sequences of up to Depth saves to two paths; every possible reading    *)
(* of every reached file system is decided, and a faithful reader passes all  *)
(* guards: the reading is that of the last bunch stored there.                *)
EXTENDS Files, TLC
CONSTANTS Depth
P(x, z, w) == [x |-> x, y |-> -x, z |-> z, px |-> x + 1, py |-> 2, pz |-> 7 * w, w |-> w]
Cfg == [paths |-> 2, bunches |->
  << [sp |-> "electron", name |-> "a", ps |-> <<P(1, 4, 2), P(-3, -1, 1)>>],
     [sp |-> "positron", name |-> "b", ps |-> <<P(2, 0, 1)>>],
     [sp |-> "proton", name |-> "a", ps |-> <<P(0, 3, 1), P(5, 1, 1), P(2, 2, 3)>>] >>]
Saves == [a : {"save"}, b : 1..3, fmt : Formats \cup {"other"}, p : 1..2, species : {"", "s"}]
Diags == [a : {"diag"}, bs : {<<1, 2>>, <<2, 3>>, <<2>>}, p : 1..2, off : {0, 50}]
Reads == [a : {"read"}, p : 1..2, fmt : Formats \cup {"other"}, name : {"", "n"},
          species : {"", "a", "b", "s"}, keep : BOOLEAN]
(* A faithful implementation of reading. *)
RefPart(ps, n, W) == [x |-> Sum(ps, LAMBDA p : p.w * p.x), y |-> Sum(ps, LAMBDA p : p.w * p.y),
   px |-> Sum(ps, LAMBDA p : p.w * p.px), py |-> Sum(ps, LAMBDA p : p.w * p.py),
   pz |-> Sum(ps, LAMBDA p : p.w * p.pz), xi |-> 0, w |-> W]
Obs(q, n, W, zs) == [x |-> q.x * W, y |-> q.y * W, px |-> q.px * W, py |-> q.py * W,
   pz |-> q.pz * W, xi |-> q.z * W - zs, w |-> q.w * n]
Faithful(st, r) ==
  LET f == st.files[r.p]
      e == f.content[Choice(f, r)]
      W == Weight(e.ps)
      body == [i \in DOMAIN e.ps |-> Obs(e.ps[i], Len(e.ps), W, ZSum(e.ps))]
  IN [sp |-> e.sp, fresh |-> TRUE,
      name |-> IF r.name # "" THEN r.name ELSE IF r.fmt = "openpmd" THEN e.species ELSE "default",
      prop |-> IF r.keep THEN ZSum(e.ps) + W * e.off ELSE 0,
      ps |-> IF Extra(r.fmt) = 0 THEN body ELSE <<RefPart(e.ps, Len(e.ps), W)>> \o body]
VARIABLES st, n
Init == st = InitState(Cfg) /\ n = 0
Next == /\ n < Depth /\ n' = n + 1
        /\ \E ev \in Saves \cup Diags : st' = Effect(Cfg, st, ev)
Spec == Init /\ [][Next]_<<st, n>>
Decided == \A r \in Reads :
  LET ev == IF Readable(st, r)
            THEN r @@ [ok |-> TRUE, got |-> Faithful(st, r)]
            ELSE r @@ [ok |-> FALSE]
  IN /\ Failed(Guards(Cfg, st, ev)) = {}
     /\ Failed(Guards(Cfg, st, [ev EXCEPT !.ok = ~ev.ok])) # {} \/ Readable(st, r)
Centred == \A p \in 1..2, k \in 1..2 :
  k \in DOMAIN st.files[p].content =>
    LET e == st.files[p].content[k]
        W == Weight(e.ps)
    IN Sum(e.ps, LAMBDA q : q.w * (q.z * W - ZSum(e.ps))) = 0
Ambiguous == \A p \in 1..2 :
  Len(st.files[p].content) > 1 =>
    ~Readable(st, [p |-> p, fmt |-> "openpmd", species |-> ""])
=============================================================================
