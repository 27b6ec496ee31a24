----------------------------- MODULE MCBeamline -----------------------------
(* Every way of grouping a line of elements in nested and consecutive       *)
(* beamlines, with one diagnostics object, gives the same outputs, final    *)
(* state and series of files as tracking the elements one by one.           *)
EXTENDS Beamline, TLC

CONSTANTS N

Kinds == {"field", "tm"}
RowSet == [L : {2, 4}, kind : Kinds, n : {-1, 0, 1, 2}]
Legal(r) == /\ (r.kind = "field" => r.n >= 0)
            /\ (r.kind = "tm" => r.n # 0)
(* Tokens: the state after i elements is i; outputs are <<element, k>>. *)
MkRow(r, i) == [L |-> r.L, kind |-> r.kind, n |-> r.n, fin |-> i,
                outs |-> [k \in 1..Len(OutPositions(r)) |-> <<i, k>>],
                cont |-> [k \in 1..Len(OutPositions(r)) |-> <<i, k>>]]

(* All trees over the elements a..b: groupings of depth at most d. *)
Leaf(i) == [leaf |-> TRUE, i |-> i]
Node(ts) == [leaf |-> FALSE, c |-> ts]
RECURSIVE Splits(_, _)
(* All ways to cut a..b in consecutive non-empty pieces <<a,b>>. *)
Splits(a, b) ==
  IF a > b THEN {<<>>}
  ELSE UNION {{<< <<a, m>> >> \o s : s \in Splits(m + 1, b)} : m \in a..b}
RECURSIVE Trees(_, _, _)
Trees(a, b, d) ==
  IF d = 0 THEN {Node([i \in 1..(b - a + 1) |-> Leaf(a + i - 1)])}
  ELSE UNION {
    LET RECURSIVE Comb(_)
        Comb(k) == IF k > Len(s) THEN {<<>>}
                   ELSE {<<t>> \o rest :
                          t \in (IF s[k][1] = s[k][2] THEN {Leaf(s[k][1])} ELSE {})
                                \union Trees(s[k][1], s[k][2], d - 1),
                          rest \in Comb(k + 1)}
    IN {Node(c) : c \in Comb(1)}
    : s \in Splits(a, b)}

VARIABLES cfg, st, done, outs, files
vars == <<cfg, st, done, outs, files>>

Init == /\ \E rs \in [1..N -> {r \in RowSet : Legal(r)}] :
             cfg = [rows |-> [i \in 1..N |-> MkRow(rs[i], i)], names |-> <<"b">>]
        /\ st = InitState(cfg)
        /\ done = FALSE
        /\ outs = <<>>
        /\ files = <<>>

(* What an implementation that simply recurses over the tree produces. *)
RECURSIVE Impl(_, _, _)
Impl(t, n, z) ==
  IF t.leaf
  THEN LET ps == OutPositions(cfg.rows[t.i]) IN
       [outs |-> cfg.rows[t.i].outs, fin |-> cfg.rows[t.i].fin,
        files |-> [k \in 1..Len(ps) |-> [idx |-> n + k - 1, t |-> z + ps[k],
                     zoff |-> <<z + ps[k]>>, names |-> cfg.names, qm |-> TRUE,
                     cont |-> cfg.rows[t.i].cont[k]]],
        n |-> n + Len(ps), z |-> z + cfg.rows[t.i].L]
  ELSE LET RECURSIVE Go(_, _)
           Go(k, acc) == IF k > Len(t.c) THEN acc
             ELSE LET r == Impl(t.c[k], acc.n, acc.z) IN
                  Go(k + 1, [outs |-> acc.outs \o r.outs, fin |-> r.fin,
                             files |-> acc.files \o r.files, n |-> r.n, z |-> r.z])
       IN Go(1, [outs |-> <<>>, fin |-> 0, files |-> <<>>, n |-> n, z |-> z])

Track ==
  /\ ~done
  /\ \E m \in (st.pos + 1)..N : \E t \in Trees(st.pos + 1, m, 1) :
       LET r == Impl(t, st.n, st.z)
           ev == [a |-> "track", tree |-> t, outs |-> r.outs, fin |-> r.fin,
                  prop |-> Length(cfg, [i \in 1..m |-> i]), written |-> TRUE,
                  files |-> r.files]
       IN /\ Assert(Failed(Guards(cfg, st, ev)) = {}, <<"guards", ev>>)
          /\ st' = Effect(cfg, st, ev)
          /\ outs' = outs \o r.outs
          /\ files' = files \o r.files
          /\ Assert(st'.n = r.n /\ st'.z = r.z, "effect")
          /\ done' = (m = N)
          /\ UNCHANGED cfg
Next == Track
Spec == Init /\ [][Next]_vars

(* Whatever the grouping, the whole line has produced the same things. *)
SameResult == done => /\ outs = OutsOf(cfg, [i \in 1..N |-> i])
                      /\ st.z = Length(cfg, [i \in 1..N |-> i])
Gapless == \A k \in 1..Len(files) : files[k].idx = k - 1
TimeOrdered == \A i, j \in 1..Len(files) : i < j => files[i].t <= files[j].t
=============================================================================
