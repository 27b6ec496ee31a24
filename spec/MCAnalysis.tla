----------------------------- MODULE MCAnalysis -----------------------------
(* Over all small bunches: the specified quantities obey their laws - no      *)
(* negative variances or determinants, invariance under shifts and            *)
(* reordering, exchange of planes - and files return what was stored last.    *)
EXTENDS Analysis, TLC
CONSTANTS N, R
Part == [x : 0..R, px : -R..R, w : 1..2]
Full(p) == [x |-> p.x, y |-> p.px, z |-> 0, px |-> p.px, py |-> p.x - p.px, g |-> 3 + p.x, w |-> p.w]
VARIABLES ps, st, n
Cfg == [files |-> 2]
Init == /\ ps \in [1..N -> Part]
        /\ st = InitState(Cfg) /\ n = 0
Next == /\ n < 3 /\ n' = n + 1 /\ UNCHANGED ps
        /\ ps[1].x = 0 /\ ps[1].px = 0
        /\ \E f \in 1..2, d \in 1..2 : st' = Effect(Cfg, st, [a |-> "store", f |-> f, d |-> d, ok |-> TRUE])
Spec == Init /\ [][Next]_<<ps, st, n>>
Bunch == [i \in 1..N |-> Full(ps[i])]
Swap(b) == [i \in DOMAIN b |-> [b[i] EXCEPT !.x = b[i].y, !.y = b[i].x, !.px = b[i].py, !.py = b[i].px]]
Shift(b, k) == [i \in DOMAIN b |-> [b[i] EXCEPT !.x = b[i].x + k, !.px = b[i].px - k]]
Rev(b) == [i \in DOMAIN b |-> b[Len(b) + 1 - i]]
Positive == LET b == Bunch IN Cov(b, X, X) >= 0 /\ Cov(b, G, G) >= 0 /\ Det(b, X, PX) >= 0 /\ Det(b, Y, PY) >= 0
Laws == LET b == Bunch IN
  /\ Det(Shift(b, 2), X, PX) = Det(b, X, PX) /\ Cov(Shift(b, 2), X, PX) = Cov(b, X, PX)
  /\ Det(Rev(b), X, PX) = Det(b, X, PX)
  /\ Det(Swap(b), X, PX) = Det(b, Y, PY) /\ Cov(Swap(b), X, X) = Cov(b, Y, Y)
Stored == \A f \in 1..2 : st.files[f] # 0 =>
  Failed(Guards(Cfg, st, [a |-> "load", f |-> f, equals |-> <<st.files[f]>>])) = {}
=============================================================================
