------------------------------- MODULE MCGrid -------------------------------
(* For every shape, correction and position: the shape factors conserve the *)
(* weight, are local, and (linear) keep the longitudinal centroid; gathering *)
(* and resampling reproduce linear fields, and odd fields vanish on axis.    *)
EXTENDS Grid, TLC
CONSTANTS NZ, NR
VARIABLES shape, ruyten, zc, rc
vars == <<shape, ruyten, zc, rc>>
Init == shape \in {"linear", "cubic"} /\ ruyten \in BOOLEAN /\ zc = 0 /\ rc = -4
Next == /\ UNCHANGED <<shape, ruyten>>
        /\ \/ zc < 8*NZ /\ zc' = zc + 1 /\ UNCHANGED rc
           \/ rc < 8*NR + 4 /\ rc' = rc + 1 /\ UNCHANGED zc
Spec == Init /\ [][Next]_vars
G == [nz |-> NZ, nr |-> NR, shape |-> shape, ruyten |-> ruyten]
Pt == [zc |-> zc, rc |-> rc, w |-> 1]
On == Inside(NZ, NR, Pt) /\ (shape = "cubic" => zc % 2 = 0 /\ rc % 2 = 0)
W == [x \in ((0..(NZ-1)) \X (0..(NR-1))) |-> Contribution(G, Pt, x[1], x[2])]
Conserved == On => SumOver(W, DOMAIN W) = Unit(shape)
Reach == IF shape = "linear" THEN 8 ELSE 16
Local == On => \A x \in DOMAIN W : W[x] # 0 =>
   /\ 8*x[1] - zc <= Reach /\ zc - 8*x[1] <= Reach
   /\ 8*x[2] - rc <= Reach /\ rc - 8*x[2] <= Reach
Centroid == (On /\ shape = "linear") =>
   SumOver([x \in DOMAIN W |-> 8 * x[1] * W[x]], DOMAIN W) = zc * Unit(shape)
Nothing == ~Inside(NZ, NR, Pt) => \A x \in DOMAIN W : W[x] = 0
(* Field 3 + 2 i + 5 j (+ i j): i along z, j along r, in values *)
F == [i \in 1..NZ |-> [j \in 1..NR |-> 3 + 2*(i-1) + 5*(j-1) + (i-1)*(j-1)]]
Odd == [i \in 1..NZ |-> [j \in 1..NR |-> (2*j - 1) * (4 + i)]]   \* proportional to r
GatherLinear == (OnGrid(NZ, NR, Pt) /\ rc >= 0) =>
   Gathered(NZ, NR, F, Pt, FALSE) = 64*3 + 16*zc + 40*rc + zc*rc
GatherOdd == OnGrid(NZ, NR, Pt) =>
   Gathered(NZ, NR, Odd, Pt, TRUE) = (8 + 2*rc) * (40 + zc)
Axis == (OnGrid(NZ, NR, Pt) /\ rc = -4) => Gathered(NZ, NR, F, Pt, TRUE) = 0
ResampleLinear == (zc <= 8*(NZ-1)) =>
   Resampled(NZ, NR, F, zc, rc) = 64*3 + 16*zc + 40*rc + zc*rc
=============================================================================
