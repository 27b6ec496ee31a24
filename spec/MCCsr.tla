------------------------------- MODULE MCCsr -------------------------------
(* All programs of up to Depth operations: tracking any element, resetting,  *)
(* changing the settings.  The history is always the longest uninterrupted    *)
(* sequence of radiating elements, and layouts are exact covers that include  *)
(* the outputs.                                                              *)
EXTENDS Csr, TLC
CONSTANTS Depth, MaxLen
Els == << [len |-> 100, csr |-> TRUE, n |-> 0], [len |-> 70, csr |-> TRUE, n |-> 3],
          [len |-> 90, csr |-> FALSE, n |-> 2], [len |-> 250, csr |-> TRUE, n |-> 1] >>
Cfg == [els |-> Els, step |-> 50, bins |-> 10]
VARIABLES st, log
vars == <<st, log>>
Init == st = InitState(Cfg) /\ log = <<>>
Next == /\ Len(log) < Depth
        /\ \/ \E e \in 1..4 : st' = Track(Cfg, st, e) /\ log' = Append(log, e)
           \/ st' = Effect(Cfg, st, [a |-> "reset"]) /\ log' = Append(log, 0)
           \/ \E s \in {30, 50} : /\ st' = Effect(Cfg, st, [a |-> "settings", step |-> s, bins |-> 10])
                                 /\ log' = Append(log, -s)
Spec == Init /\ [][Next]_vars
Breaks(x) == x = 0 \/ (x > 0 /\ ~Els[x].csr)
LastBreak == LET B == {i \in DOMAIN log : Breaks(log[i])} IN
             IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : j <= i
Uninterrupted == SelectSeq(SubSeq(log, LastBreak + 1, Len(log)), LAMBDA x : x > 0)
HistoryIsSuffix == st.hist = Uninterrupted
(* Layouts, for every length, step and number of outputs. *)
Layouts == \A len \in 1..MaxLen, step \in 1..12, n \in 0..5 :
   LET el == [len |-> len, csr |-> TRUE, n |-> n]
       s == Steps(el, step)
   IN /\ GoodLayout(el, step, s)
      /\ \A k \in 1..n : (k * s) % n = 0           \* output k falls on a step
      /\ \A t \in 1..s-1 : t % Parts(el) # 0 \/ t * step < len  \* fewest
ASSUME Layouts
=============================================================================
