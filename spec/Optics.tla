------------------------------- MODULE Optics -------------------------------
(***************************************************************************)
(* Transfer maps and the reference trajectory.                             *)
(*                                                                         *)
(* State, per bunch: propagation distance (micrometres), reference angle    *)
(* (multiples of the base angle of the trace), reference displacement and    *)
(* the particles in the frame of the reference: offset and slope x, u, y, v, *)
(* lag l (position behind is negative) and momentum deviation d, integers    *)
(* in the units of the trace; known[l] is FALSE once the lag cannot be       *)
(* expressed as an integer.  The reference momentum of bunch b is            *)
(* cfg.p[b] = <<numerator, denominator>> (units of m c), so that             *)
(* 1/beta = E/num with E^2 = num^2 + den^2 (E = cfg.e[b]).                   *)
(* An element is                                                            *)
(*   drift  : len                                                           *)
(*   quad   : sgn, k, base, m   phase k*length = m times the base phase      *)
(*   bend   : sgn, rho, base, m  angle = sgn * m times the base angle        *)
(*   sext   : len, K             second-order map, strength 12*K             *)
(* with um, its length in micrometres.  Tracking backwards (dir = -1) undoes    *)
(* the element: parts of negative length.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* Base phases: cosine, sine, denominator. *)
Base(b) == CASE b = "quarter" -> <<0, 1, 1>>
             [] b = "345" -> <<4, 3, 5>>
             [] OTHER -> <<5, 3, 4>>            \* "ln2": hyperbolic
RECURSIVE Multiple(_, _)
Multiple(b, m) ==
  IF m = 0 THEN <<1, 0, 1>>
  ELSE LET r == Multiple(b, m - 1)
           e == Base(b)
           s == IF b = "ln2" THEN 1 ELSE -1
       IN << r[1]*e[1] + s*r[2]*e[2], r[1]*e[2] + r[2]*e[1], r[3]*e[3] >>
SignedAngle(b, m) == IF m >= 0 THEN Multiple(b, m)
                     ELSE LET r == Multiple(b, -m) IN <<r[1], -r[2], r[3]>>
(* Exact by construction of the traces *)
Over(a, n) == a \div n
Rot(c, s, n, a, b) == c * Over(a, n) + s * Over(b, n)

(* --- part m of an element's map ------------------------------------------ *)
DriftMap(q, L, num, den) ==
  [q EXCEPT !.x = q.x + L*q.u, !.y = q.y + L*q.v,
            !.l = q.l + L * den * den * Over(q.d, num * num)]
Focus(x, u, k, r) == << Rot(r[1], r[2], r[3], x, Over(u, k)),
                        Rot(r[1], -r[2]*k, r[3], u, x) >>
Defocus(x, u, k, r) == << Rot(r[1], r[2], r[3], x, Over(u, k)),
                          Rot(r[1], r[2]*k, r[3], u, x) >>
QuadMap(q, el, m) ==
  LET r == SignedAngle(el.base, m)
      hyp == el.base = "ln2"
      fx == el.sgn > 0                 \* positive strength focuses in x
      \* particles populate only the plane whose phase is exact
      px == Focus(q.x, q.u, el.k, r)
      dx == Defocus(q.x, q.u, el.k, r)
      py == Focus(q.y, q.v, el.k, r)
      dy == Defocus(q.y, q.v, el.k, r)
  IN IF fx # hyp
     THEN LET w == IF hyp THEN dx ELSE px IN [q EXCEPT !.x = w[1], !.u = w[2], !.known = q.known /\ q.d = 0]
     ELSE LET w == IF hyp THEN dy ELSE py IN [q EXCEPT !.y = w[1], !.v = w[2], !.known = q.known /\ q.d = 0]
BendMap(q, el, m, num, e) ==
  LET r == SignedAngle(el.base, m)
      h == -el.sgn
      \* dispersion: more energetic particles lag behind the bend
      db == e * Over(q.d, num)
  IN [q EXCEPT
       !.x = r[1]*Over(q.x, r[3]) + el.rho * r[2]*Over(q.u, r[3])
             + h * el.rho * (r[3]-r[1]) * Over(db, r[3]),
       !.u = r[1]*Over(q.u, r[3]) - r[2]*Over(q.x, r[3]*el.rho) + h * r[2] * Over(db, r[3]),
       !.l = IF q.d # 0 THEN q.l
             ELSE q.l - h * (r[2] * e * Over(q.x, r[3]*num)
                             + el.rho * (r[3]-r[1]) * e * Over(q.u, r[3]*num)),
       !.known = q.known /\ q.d = 0]
(* Second-order map of a sextupole (12 K): integrals of the kick -6K(x^2-y^2) *)
(* along the straight line.                                                 *)
SextMap(q, L, K) ==
  LET xx == q.x*q.x - q.y*q.y
      xu == q.x*q.u - q.y*q.v
      uu == q.u*q.u - q.v*q.v
      xy == q.x*q.y
      xv == q.x*q.v + q.y*q.u
      uv == q.u*q.v
  IN [q EXCEPT
       !.x = q.x + L*q.u - K*(3*xx*L*L + 2*xu*L*L*L) - (K*uu*L*L*L*L) \div 2,
       !.u = q.u - K*(6*xx*L + 6*xu*L*L + 2*uu*L*L*L),
       !.y = q.y + L*q.v + K*(6*xy*L*L + 2*xv*L*L*L + uv*L*L*L*L),
       !.v = q.v + K*(12*xy*L + 6*xv*L*L + 4*uv*L*L*L),
       !.known = FALSE]
(* j out of n parts of the element *)
PartMap(cfg, b, el, j, n, q) ==
  LET num == cfg.p[b][1]
      den == cfg.p[b][2]
  IN CASE el.kind = "drift" -> DriftMap(q, Over(el.len, n) * j, num, den)
       [] el.kind = "quad" -> QuadMap(q, el, Over(el.m, n) * j)
       [] el.kind = "bend" -> BendMap(q, el, Over(el.m, n) * j, num, cfg.e[b])
       [] OTHER -> SextMap(q, Over(el.len, n) * j, el.K)

(* --- reference trajectory -------------------------------------------------- *)
(* Displacements in units of 1/cfg.n m. *)
Cos(cfg, a) == LET r == SignedAngle(cfg.base, a) IN r[1] * (cfg.n \div r[3])
Sin(cfg, a) == LET r == SignedAngle(cfg.base, a) IN r[2] * (cfg.n \div r[3])
RefAfter(cfg, s, el, j, n) ==
  LET a2 == s.ang + (IF el.kind = "bend" THEN el.sgn * Over(el.m, n) * j ELSE 0)
  IN [ang |-> a2,
      xref |-> IF el.kind = "bend"
               THEN s.xref + el.sgn * el.rho * (Cos(cfg, s.ang) - Cos(cfg, a2))
               ELSE IF el.kind = "quad" THEN s.xref    \* used only where Sin = 0
               ELSE s.xref + Over(el.len, n) * j * Sin(cfg, s.ang),
      um |-> s.um + (el.um \div n) * j]

After(cfg, b, s, el, j, n) ==
  LET r == RefAfter(cfg, s, el, j, n) IN
  [ang |-> r.ang, xref |-> r.xref, um |-> r.um,
   ps |-> [i \in DOMAIN s.ps |-> PartMap(cfg, b, el, j, n, s.ps[i])]]

InitState(cfg) ==
  [b \in DOMAIN cfg.start |->
     [ang |-> 0, xref |-> 0, um |-> 0,
      ps |-> cfg.start[b]]]

(* --- observations ------------------------------------------------------------ *)
Near(a, b, t) == a - b \in (-t)..t
SameParticle(o, q) ==
  /\ o.x = q.x /\ o.u = q.u /\ o.y = q.y /\ o.v = q.v /\ o.d = q.d
  /\ q.known => o.l = q.l
SameEnergy(o, q) == o.d = q.d
SameParticles(o, s) == /\ Len(o.ps) = Len(s.ps)
                       /\ \A i \in DOMAIN s.ps : SameParticle(o.ps[i], s.ps[i])
SameRef(o, s) == o.ang = s.ang /\ o.xref = s.xref
OnReference(q) == q.x = 0 /\ q.u = 0 /\ q.y = 0 /\ q.v = 0 /\ q.d = 0 /\ q.l = 0
Expected(n, init) == (IF n = 0 THEN 0 ELSE n) + (IF init THEN 1 ELSE 0)
TrackGuards(cfg, st, ev) ==
  LET s == st[ev.b]
      d == ev.dir
      e == After(cfg, ev.b, s, ev.el, d, 1)
      k0 == IF ev.init THEN 1 ELSE 0
      N == ev.n
      counted == Len(ev.outs) = Expected(N, ev.init)
      ok == SameParticles(ev.final, e) /\ SameRef(ev.final, e)
      At(k) == After(cfg, ev.b, s, ev.el, d * k, N)
      Idx == IF N = 0 \/ ~counted THEN {} ELSE 1..N
      initial == (counted /\ ev.init) =>
             SameParticles(ev.outs[1], s) /\ SameRef(ev.outs[1], s) /\ Near(ev.outs[1].um, s.um, 9)
      distance == Near(ev.final.um, e.um, 9)
             /\ \A k \in Idx : Near(ev.outs[k0 + k].um, s.um + d * (ev.el.um \div N) * k, 9)
      where == ok => \A k \in Idx : SameParticles(ev.outs[k0 + k], At(k))
      last == (counted /\ N > 0) => ev.lastfinal
      reference == SameRef(ev.final, e) /\ \A k \in Idx : SameRef(ev.outs[k0 + k], At(k))
  IN IF d = -1
     THEN << <<"P34.outputs", counted /\ initial /\ where /\ last>>,
             <<"P34.distance", distance>>,
             <<"P34.reference", reference>>,
             <<"P34.undone", SameParticles(ev.final, e)>> >>
     ELSE
     << <<"P21.count", counted>>,
        <<"P21.initial", initial>>,
        <<"P21.distance", distance>>,
        <<"P21.where", where>>,
        <<"P21.last", last>>,
        <<"P22.reference", reference>>,
        <<"P22.stays", \A i \in DOMAIN s.ps : OnReference(s.ps[i]) =>
             /\ i \in DOMAIN ev.final.ps => OnReference(ev.final.ps[i])
             /\ \A k \in Idx : i \in DOMAIN ev.outs[k0 + k].ps => OnReference(ev.outs[k0 + k].ps[i])>>,
        <<"P23.map", SameParticles(ev.final, e)>>,
        <<"P33.map", ev.el.kind = "sext" =>
             SameParticles(ev.final, e) /\ (ok => \A k \in Idx : SameParticles(ev.outs[k0 + k], At(k)))>>,
        <<"P23.energy", \A i \in DOMAIN s.ps \intersect DOMAIN ev.final.ps :
             SameEnergy(ev.final.ps[i], s.ps[i])>> >>

Guards(cfg, st, ev) ==
  CASE ev.a = "track" -> TrackGuards(cfg, st, ev)
    [] ev.a = "law" -> << <<ev.law, ev.dev <= ev.max>> >>
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  IF ev.a = "track" THEN [st EXCEPT ![ev.b] = After(cfg, ev.b, st[ev.b], ev.el, ev.dir, 1)]
  ELSE st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
