------------------------------ MODULE MCFields ------------------------------
(* The gathering machine: one set of buffers per bunch, reset before every  *)
(* use, to which the fields of the element are added one by one.            *)
EXTENDS Fields, TLC
CONSTANT MaxLen
Cat == << [k |-> "quad", g |-> 2], [k |-> "lens", g |-> 3],
          [k |-> "custom", g |-> 1, e0 |-> 5, e1 |-> 2, xi0 |-> 1],
          [k |-> "lin", comps |-> << <<1,0,2,0>>, <<>>, <<0,0,0,3>>, <<>>, <<4,0,0,0>>, <<0,1,0,0>> >>] >>
Bs == << [x |-> 1, y |-> 2, xi |-> -1, d |-> 1, e |-> 1],
         [x |-> -2, y |-> 0, xi |-> 3, d |-> 4, e |-> 3] >>
C == [fields |-> Cat, bunches |-> << <<Bs[1]>>, <<Bs[2]>> >>]
Lists == UNION {[1..n -> 1..Len(Cat)] : n \in 0..MaxLen}
VARIABLES buf, b, todo, list, pc
vars == <<buf, b, todo, list, pc>>
Init == buf = [i \in 1..2 |-> << Zero3, Zero3 >>] /\ b = 1 /\ todo = <<>>
        /\ list = <<>> /\ pc = "idle"
Start == pc \in {"idle", "done"} /\ \E i \in 1..2, fs \in Lists :
           /\ b' = i /\ list' = fs /\ todo' = fs /\ pc' = "reset" /\ UNCHANGED buf
Reset == pc = "reset" /\ buf' = [buf EXCEPT ![b] = << Zero3, Zero3 >>]
         /\ pc' = "add" /\ UNCHANGED <<b, todo, list>>
AddOne == pc = "add" /\ todo # <<>>
       /\ LET eb == FieldAt(Cat[Head(todo)], Bs[b]) IN
            buf' = [buf EXCEPT ![b] = << Add(@[1], eb[1]), Add(@[2], eb[2]) >>]
       /\ todo' = Tail(todo) /\ UNCHANGED <<b, list, pc>>
Done == pc = "add" /\ todo = <<>> /\ pc' = "done" /\ UNCHANGED <<buf, b, todo, list>>
Next == Start \/ Reset \/ AddOne \/ Done
Spec == Init /\ [][Next]_vars
St == InitState(C)
Sum == pc = "done" => Force(Bs[b], buf[b][1], buf[b][2]) = Total(C, St, list, b, 1)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Order == Total(C, St, list, b, 1) = Total(C, St, Rev(list), b, 1)
Other == pc = "done" => TRUE
Tab == Tables
=============================================================================
