---------------------------- MODULE MCGenerate ----------------------------
(* All requests over small ranges for fixed random numbers: the second moments  *)
(* of what is generated are those of the requested Twiss parameters (exactly,    *)
(* for draws with unit moments), pure offsets shift rigidly, and a faithful       *)
(* generator passes every guard after learning.                                 *)
EXTENDS Generate
(* draws with zero mean, unit variance, no correlation *)
D(a, b, c, d, e, f) == [ux |-> a * Res, vx |-> b * Res, uy |-> c * Res, vy |-> d * Res,
                        zz |-> e * Res, ee |-> f * Res]
Draws == << D(1, 1, 1, -1, 1, 1), D(1, -1, -1, 1, 2, -1), D(-1, 1, -1, -1, -3, 0),
            D(-1, -1, 1, 1, 0, 0) >>
S == 1..Len(Draws)
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Mean(F(_)) == Sum([i \in S |-> F(Draws[i])], Len(Draws)) \div Len(Draws)
VARIABLES r, st, stage
vars == <<r, st, stage>>
Base == [ax |-> 1, ay |-> 1, bx |-> 1, by |-> 1, fx |-> 0, fy |-> 0, ene |-> 1, sp |-> 1,
         st |-> 1, c |-> 0, ox |-> 0, oy |-> 0, tx |-> 0, ty |-> 0, n |-> 4, q |-> 7, name |-> ""]
Got == [q |-> 7, equal |-> TRUE, species |-> TRUE, fresh |-> TRUE, name |-> "x"]
Ps(q) == [i \in S |-> [x |-> X(q, Draws[i]), y |-> Y(q, Draws[i]), xp |-> XP(q, Draws[i]),
                       yp |-> YP(q, Draws[i]), z |-> Z(q, Draws[i]), e |-> DE(q, Draws[i])]]
Learn == [a |-> "learn", s |-> 1, r |-> Base, got |-> Got, ps |-> Ps(Base)]
Init == r = Base /\ st = InitState([seeds |-> 1]) /\ stage = 0
Next == \/ /\ stage = 0 /\ st' = Effect([seeds |-> 1], st, Learn) /\ stage' = 1 /\ r' = r
        \/ /\ stage = 1 /\ stage' = 2 /\ st' = st
           /\ \E ax \in 1..3, bx \in 1..3, fx \in -2..2, ox \in -1..1, sp \in 0..2, z \in 1..2,
                 c \in -2..1 :
              r' = [Base EXCEPT !.ax = ax, !.bx = bx, !.fx = fx, !.ox = ox, !.sp = sp, !.st = z,
                                !.c = c, !.ay = 4 - ax, !.by = bx, !.fy = -fx, !.oy = 2 * ox]
Spec == Init /\ [][Next]_vars
Learned == stage >= 1 =>
  Failed(Guards([seeds |-> 1], st, [a |-> "make", s |-> 1, r |-> r, got |-> Got, ps |-> Ps(r)])) = {}
LearnOK == Failed(Guards([seeds |-> 1], st, Learn)) = {}
Centre == /\ Mean(LAMBDA d : X(r, d)) = r.ox * Res /\ Mean(LAMBDA d : Z(r, d)) = r.c * Res
          /\ Mean(LAMBDA d : Y(r, d)) = r.oy * Res
(* <x^2> = a^2, <x xp> = -alpha a b, <xp^2> = b^2 (1 + alpha^2) in units of Res^2 *)
Twiss ==
  LET u(d) == (X(r, d) - r.ox * Res) \div Res
      v(d) == XP(r, d) \div Res
  IN /\ Mean(LAMBDA d : u(d) * u(d)) = r.ax * r.ax
     /\ Mean(LAMBDA d : u(d) * v(d)) = -(r.fx * r.ax * r.bx)
     /\ Mean(LAMBDA d : v(d) * v(d)) = r.bx * r.bx * (1 + r.fx * r.fx)
=============================================================================
