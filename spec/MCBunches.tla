----------------------------- MODULE MCBunches -----------------------------
(* A heap implementation of bunches: attributes are references to cells.    *)
(* All sequences of new, copy, edit and track keep objects free of sharing, *)
(* and what is then observed satisfies the guards of Bunches.tla.           *)
EXTENDS Bunches, TLC

CONSTANTS MAXOBJ, MAXVAL

VARIABLES heap, refs, st, nval, nauto
vars == <<heap, refs, st, nval, nauto>>
(* One phase-space attribute, one kept array and the name stand for all. *)
Arr == {"x", "w"}

View(h, r) == [i \in 1..Len(r) |->
  [a \in Attrs |-> CASE a = "x" -> h[r[i].x] [] a = "w" -> h[r[i].w]
                     [] a = "name" -> r[i].name [] OTHER -> 0]]
Init == heap = <<>> /\ refs = <<>> /\ st = InitState(<<>>) /\ nval = 0 /\ nauto = 0

Check(ev) == /\ Assert(Failed(Guards(<<>>, st, ev)) = {}, <<Failed(Guards(<<>>, st, ev)), ev>>)
             /\ st' = Effect(<<>>, st, ev)
Room(k) == Len(refs) + k <= MAXOBJ

New(unnamed) ==
  /\ Room(1) /\ nval < MAXVAL
  /\ heap' = heap \o <<nval + 1, nval + 1>>
  /\ nval' = nval + 1
  /\ refs' = Append(refs, [x |-> Len(heap) + 1, w |-> Len(heap) + 2,
                           name |-> IF unnamed THEN 100 + nauto ELSE 1])
  /\ nauto' = IF unnamed THEN nauto + 1 ELSE nauto
  /\ Check([a |-> "new", unnamed |-> unnamed, all |-> View(heap', refs')])
Copy(o) ==
  /\ Room(1)
  /\ heap' = heap \o <<heap[refs[o].x], heap[refs[o].w]>>
  /\ refs' = Append(refs, [x |-> Len(heap) + 1, w |-> Len(heap) + 2, name |-> refs[o].name])
  /\ UNCHANGED <<nval, nauto>>
  /\ Check([a |-> "copy", o |-> o, all |-> View(heap', refs')])
Edit(o, at) ==
  /\ nval < MAXVAL
  /\ heap' = [heap EXCEPT ![refs[o][at]] = nval + 1]
  /\ nval' = nval + 1
  /\ UNCHANGED <<refs, nauto>>
  /\ Check([a |-> "edit", o |-> o, at |-> at, all |-> View(heap', refs')])
(* Initial output, in-place push, final output. *)
Track(o) ==
  /\ Room(2) /\ nval < MAXVAL
  /\ heap' = [heap EXCEPT ![refs[o].x] = nval + 1]
             \o <<heap[refs[o].x], heap[refs[o].w], nval + 1, heap[refs[o].w]>>
  /\ nval' = nval + 1
  /\ refs' = refs \o << [x |-> Len(heap) + 1, w |-> Len(heap) + 2, name |-> refs[o].name],
                        [x |-> Len(heap) + 3, w |-> Len(heap) + 4, name |-> refs[o].name] >>
  /\ UNCHANGED nauto
  /\ Check([a |-> "track", os |-> <<o>>, initial |-> TRUE, final |-> TRUE,
            outs |-> << <<Len(refs) + 1, Len(refs) + 2>> >>, all |-> View(heap', refs')])
Next == \/ \E u \in BOOLEAN : New(u)
        \/ \E o \in 1..Len(refs) : Copy(o) \/ Track(o) \/ \E at \in Arr : Edit(o, at)
Spec == Init /\ [][Next]_vars
NoSharing == \A i, j \in 1..Len(refs) : \A a, b \in Arr :
               <<i, a>> # <<j, b>> => refs[i][a] # refs[j][b]
Observed == st.obj = View(heap, refs)
=============================================================================
