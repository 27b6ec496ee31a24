---------------------------- MODULE MCEnvelope ----------------------------
(* Elimination and back-substitution solve every tridiagonal system with    *)
(* non-zero pivots (all systems of N rows over the field of P elements);    *)
(* the envelope equation is linear, insensitive to quarter turns of the     *)
(* phase, and its row j involves only slices j, j+1 and j+2.                *)
EXTENDS Envelope, TLC
CONSTANTS P, N
F == 0..(P-1)
Inv(x) == CHOOSE y \in F : (x * y) % P = 1
VARIABLES lo, ma, up, d, phase, w, g, p, i, e
vars == <<lo, ma, up, d, phase, w, g, p, i, e>>
Examples ==
  {[first |-> b, ph |-> h, it |-> 1, iz |-> 2, ir2 |-> 1, K |-> 3,
    s |-> <<1, 0, 1, 1>>, chi |-> <<<<1, 2>>, <<0, 3>>>>,
    cur |-> <<<<<<1, 2>>, <<0, -1>>>>, <<<<3, 0>>, <<1, 1>>>>, <<<<2, 0>>, Z>>, <<Z, <<0, 1>>>>>>,
    old |-> <<<<<<2, 2>>, <<5, -1>>>>, <<<<0, 0>>, <<1, 0>>>>, <<<<1, 1>>, Z>>, <<Z, <<0, 2>>>>>>,
    new |-> <<<<<<-1, 2>>, <<0, 4>>>>, <<<<1, 0>>, <<2, 1>>>>, <<<<0, 1>>, Z>>, <<Z, <<1, 1>>>>>>] :
    b \in BOOLEAN, h \in BOOLEAN}
Init == /\ lo \in [1..(N-1) -> F] /\ up \in [1..(N-1) -> F]
        /\ ma \in [1..N -> F] /\ d \in [1..N -> F]
        /\ phase = "down" /\ w = <<>> /\ g = <<>> /\ p = [k \in 1..N |-> 0] /\ i = 1
        /\ e = 0
Pivot == IF i = 1 THEN ma[1] ELSE (ma[i] - lo[i-1] * w[i-1]) % P
Down == /\ phase = "down" /\ Pivot # 0
        /\ LET q == Inv(Pivot) IN
           /\ g' = Append(g, ((IF i = 1 THEN d[1] ELSE d[i] - lo[i-1] * g[i-1]) * q) % P)
           /\ w' = IF i < N THEN Append(w, (up[i] * q) % P) ELSE w
        /\ IF i < N THEN i' = i + 1 /\ phase' = "down" ELSE i' = N /\ phase' = "up"
        /\ UNCHANGED <<lo, ma, up, d, p, e>>
Up == /\ phase = "up"
      /\ p' = [p EXCEPT ![i] = IF i = N THEN g[N] ELSE (g[i] - w[i] * p[i+1]) % P]
      /\ IF i = 1 THEN phase' = "done" /\ i' = i ELSE phase' = "up" /\ i' = i - 1
      /\ UNCHANGED <<lo, ma, up, d, w, g, e>>
Next == Down \/ Up
Spec == Init /\ [][Next]_vars
C(f) == [k \in DOMAIN f |-> <<f[k], 0>>]
Solved == phase = "done" =>
   \A k \in 1..N : (Row(C(lo), C(ma), C(up), C(p), k)[1] - d[k]) % P = 0

(* The envelope equation *)
Map(op(_), f) == [j \in DOMAIN f |-> [k \in DOMAIN f[j] |-> op(f[j][k])]]
Apply(x, op(_)) == [x EXCEPT !.cur = Map(op, x.cur), !.old = Map(op, x.old), !.new = Map(op, x.new)]
Plus(x, y) ==
  LET Sum(f, h) == [j \in DOMAIN f |-> [k \in DOMAIN f[j] |-> Add(f[j][k], h[j][k])]]
  IN [x EXCEPT !.cur = Sum(x.cur, y.cur), !.old = Sum(x.old, y.old), !.new = Sum(x.new, y.new)]
Cells == {0, 1} \X {0, 1}
ASSUME \A x \in Examples, c \in Cells :
  LET T(v) == Turn(1, v)
      O(v) == Z
      Y(v) == <<v[2], v[1] + 1>>
      R(z) == Residual(z, c[1], c[2])
      behind == [x EXCEPT !.new[1] = <<<<7, 7>>, <<7, 7>>>>, !.cur[1] = <<<<5, 5>>, <<1, 1>>>>,
                          !.old[1] = <<Z, Z>>]
  IN /\ R(Apply(x, T)) = Turn(1, R(x))
     /\ R(Apply(x, O)) = Z
     /\ R(Plus(x, Apply(x, Y))) = Add(R(x), R(Apply(x, Y)))
     /\ c[1] = 1 => R(behind) = R(x)
     /\ \E q \in Cells : Residual(behind, q[1], q[2]) # Residual(x, q[1], q[2])
=============================================================================
