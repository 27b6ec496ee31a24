------------------------------ MODULE MCPhase ------------------------------
(* Every representation determines the bunch: two bunches with the same     *)
(* representation have the same particles, and the momenta are on shell.    *)
EXTENDS Phase, TLC
CONSTANT XS
Parts == [x : XS, y : XS, xi : XS, d : DOMAIN Dirs, e : DOMAIN Energies, w : {1, 2}]
VARIABLES p, q, zq
Init == p \in Parts /\ q \in Parts /\ zq \in {-1}
        /\ (p.x = q.x \/ p.y = q.y) /\ p.w = 1 /\ p.xi = 0
Next == UNCHANGED <<p, q, zq>>
Spec == Init /\ [][Next]_<<p, q, zq>>
C == [zq |-> zq]
Plain(a) == Rows(C, <<a>>, "plain")
Injective ==
  /\ (Rows(C, <<p>>, "bunch") = Rows(C, <<q>>, "bunch")) => Plain(p) = Plain(q)
  /\ (Rows(C, <<p>>, "6dq") = Rows(C, <<q>>, "6dq")) => Plain(p) = Plain(q)
  /\ (Rows(C, <<p>>, "alt") = Rows(C, <<q>>, "alt") /\ p.w = q.w) => Plain(p) = Plain(q)
(* gamma^2 = 1 + p^2 (scaled) *)
OnShell == LET v == Energies[p.e] IN v[3]*v[3] = v[2]*v[2] + v[1]*v[1]
TablesOK == Tables
=============================================================================
