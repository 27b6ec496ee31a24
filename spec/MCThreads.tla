----------------------------- MODULE MCThreads -----------------------------
(* All schedules of a team of threads that share the iterations of a loop in    *)
(* every possible way; an addition to a cell is a read followed by a write.      *)
(* Safe loops end with the sequential result and always end.                     *)
EXTENDS Threads, TLC
CONSTANTS N, Cells, Team
VARIABLES target, owner, todo, reg, cell
vars == <<target, owner, todo, reg, cell>>
Val == [i \in 1..N |-> i]
Threads0 == 1..Team
TeamOf(o) == Cardinality({o[i] : i \in 1..N})
Init == /\ target \in [1..N -> 1..Cells]
        /\ owner \in [1..N -> Threads0]
        /\ Safe(target, TeamOf(owner))
        /\ todo = 1..N
        /\ reg = [t \in Threads0 |-> <<>>]      (* <<iteration, value read>> *)
        /\ cell = [x \in 1..Cells |-> 0]
(* Threads go through their iterations in order. *)
Mine(t) == {i \in todo : owner[i] = t}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Read(t) == /\ reg[t] = <<>> /\ Mine(t) # {}
           /\ LET i == First(Mine(t)) IN
              /\ reg' = [reg EXCEPT ![t] = <<i, cell[target[i]]>>]
              /\ todo' = todo \ {i}
           /\ UNCHANGED <<target, owner, cell>>
Write(t) == /\ reg[t] # <<>>
            /\ LET i == reg[t][1] IN
               cell' = [cell EXCEPT ![target[i]] = reg[t][2] + Val[i]]
            /\ reg' = [reg EXCEPT ![t] = <<>>]
            /\ UNCHANGED <<target, owner, todo>>
Next == \E t \in Threads0 : Read(t) \/ Write(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == todo = {} /\ \A t \in Threads0 : reg[t] = <<>>
Result == Done => cell = Sequential(target, Val, 1..Cells)
Ends == <>Done
(* Without the restriction to safe loops an addition can be lost: both threads *)
(* read before either writes.                                                *)
Lost == LET c0 == [x \in 1..1 |-> 0]
            r1 == c0[1]
            r2 == c0[1]
            c1 == [c0 EXCEPT ![1] = r1 + 1]
            c2 == [c1 EXCEPT ![1] = r2 + 2]
        IN c2 # Sequential(<<1, 1>>, <<1, 2>>, 1..1) /\ ~Safe(<<1, 1>>, 2)
ASSUME Lost
=============================================================================
