----------------------------- MODULE MCDensity -----------------------------
(* Walk through elements placed one after the other: position, element and    *)
(* global position.  Checked in every reachable state: ramps start or end at   *)
(* their top, reach the low density where requested, fall monotonically away   *)
(* from the top, and an up ramp mirrors the corresponding down ramp; the        *)
(* density never depends on what comes before the element.                    *)
EXTENDS Density
CONSTANTS MaxEls
Lens == 2..6
RampsD == {[k |-> k, prof |-> p, mode |-> "decay", d |-> d, len |-> l, pos |-> 0, m |-> 1,
            model |-> "none", type |-> "float", channel |-> "float"] :
           k \in {"up", "down"}, p \in Presets, d \in 1..3, l \in 2..4}
RampsP == {[k |-> k, prof |-> p, mode |-> "down", d |-> 0, len |-> l, pos |-> s, m |-> m,
            model |-> "none", type |-> "float", channel |-> "float"] :
           k \in {"up", "down"}, p \in Presets, s \in {0, 2, 4}, m \in {1, 2}, l \in {2, 4}}
Usable == {e \in RampsP : Down(e) % e.m = 0}
Others == {[k |-> "flat", v |-> 3, len |-> 3, model |-> "none", type |-> "float", channel |-> "float"],
           [k |-> "table", tab |-> <<1, 5, 2>>, len |-> 2, model |-> "none", type |-> "callable",
            channel |-> "float"]}
Elements == RampsD \cup Usable \cup Others
VARIABLES el, z, n
vars == <<el, z, n>>
Init == el \in Elements /\ z = 0 /\ n = 1
Move == z < el.len /\ z' = z + 1 /\ UNCHANGED <<el, n>>
Enter == z = el.len /\ n < MaxEls /\ el' \in Elements /\ z' = 0 /\ n' = n + 1
Next == Move \/ Enter
Spec == Init /\ [][Next]_vars
Inside == z >= 0 /\ z <= el.len
Mirror(e) == [e EXCEPT !.k = IF e.k = "up" THEN "down" ELSE "up"]
(* Fall is an inverse density: large is thin. *)
RampOK == Ramp(el) =>
  LET top == FallAt(el.prof, Decay(el), 0) IN
  /\ (el.k = "up" /\ z = el.len) => Value(el, z) = top
  /\ (el.k = "down" /\ z = 0) => Value(el, z) = top
  /\ Value(el, z) >= top
  /\ Value(el, z) = Value(Mirror(el), el.len - z)
  /\ (el.mode = "down" /\ U(el, z) = Down(el)) =>
       Value(el, z) = CASE el.prof = "invsq" -> (1 + el.m) * (1 + el.m) * top
                        [] el.prof = "exp" -> 2^(Decay(el) * el.m)
                        [] el.prof = "gauss" -> 2^(Decay(el) * el.m * Decay(el) * el.m)
Monotone == [][(Ramp(el) /\ n' = n) =>
               IF el.k = "up" THEN Value(el, z') < Value(el, z)
               ELSE Value(el, z') > Value(el, z)]_vars
Self == Failed(Guards([els |-> <<el>>], InitState([els |-> <<el>>]),
                      [a |-> "density", e |-> 1, z |-> <<z>>, v |-> <<Value(el, z)>>])) = {}
=============================================================================
