-------------------------------- MODULE Vec --------------------------------
(* Integer vectors, rational momenta and the Lorentz force.                *)
EXTENDS Integers, Sequences, FiniteSets

(* <<a, b, c, P>> with a^2 + b^2 + c^2 = P^2 *)
Dirs == << <<2, 3, 6, 7>>, <<-1, 2, 2, 3>>, <<4, -4, 7, 9>>, <<-2, -6, 9, 11>>,
           <<6, 2, 3, 7>>, <<0, 0, 1, 1>>, <<0, 3, 4, 5>>, <<-3, 0, 4, 5>> >>
(* <<pn, pd, gn>>: p = pn/pd, gamma = gn/pd, beta = pn/gn *)
Energies == << <<3, 4, 5>>, <<4, 3, 5>>, <<12, 5, 13>>, <<15, 8, 17>>, <<24, 7, 25>> >>
Tables == /\ \A d \in DOMAIN Dirs : LET v == Dirs[d] IN
               v[1]*v[1] + v[2]*v[2] + v[3]*v[3] = v[4]*v[4]
          /\ \A e \in DOMAIN Energies : LET v == Energies[e] IN
               v[1]*v[1] + v[2]*v[2] = v[3]*v[3]

Add(u, v) == [k \in 1..3 |-> u[k] + v[k]]
Sub(u, v) == [k \in 1..3 |-> u[k] - v[k]]
Scale(s, u) == [k \in 1..3 |-> s * u[k]]
Dot(u, v) == u[1]*v[1] + u[2]*v[2] + u[3]*v[3]
Cross(u, v) == << u[2]*v[3] - u[3]*v[2], u[3]*v[1] - u[1]*v[3],
                  u[1]*v[2] - u[2]*v[1] >>
Zero3 == <<0, 0, 0>>
Near(u, v, tol) == \A k \in 1..3 : u[k] - v[k] <= tol /\ v[k] - u[k] <= tol

Dir(p) == <<Dirs[p.d][1], Dirs[p.d][2], Dirs[p.d][3]>>
(* The force on a particle p (direction p.d, energy p.e), in units of      *)
(* E0/Den(p), of fields E (units E0) and B (units E0/c).                   *)
Den(p) == Energies[p.e][3] * Dirs[p.d][4]
Force(p, E, B) == Add(Scale(Den(p), E), Scale(Energies[p.e][1], Cross(Dir(p), B)))
=============================================================================
