-------------------------------- MODULE Pulse --------------------------------
(***************************************************************************)
(* Initial laser envelopes and their sums.                                 *)
(*                                                                         *)
(* A pulse has peak a0 and phase -q quarter turns.  Points are given by the *)
(* distance d to the focus in Rayleigh lengths (-1, 0 or 1), the            *)
(* radius: ln(2)*m = r^2/(w^2 (1+d^2)), and the distance to the centre:     *)
(* ln(2)*n = the exponent of the longitudinal Gaussian, so that every       *)
(* envelope is a0 2^-(m+n) up to phase and diffraction.  Laguerre-Gauss and *)
(* flattened pulses are compared with the Gaussian at radii where           *)
(* x = 2 r^2/(w^2 (1+d^2)) is an integer.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Add(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Sc(n, p) == <<n * p[1], n * p[2]>>
Turn(n, p) == CASE n % 4 = 0 -> p
                [] n % 4 = 1 -> <<-p[2], p[1]>>
                [] n % 4 = 2 -> <<-p[1], -p[2]>>
                [] OTHER -> <<p[2], -p[1]>>

(* Gaussian on axis or at focus, times 2^(m+n) (1+d^2) *)
Gauss(a0, q, d) == Turn(-q, Sc(a0, <<1, -d>>))
(* Phase in millionths of a radian, for any m *)
PiHalf == 1570796
Ln2 == 693147
Phase(q, d, m) == -q * PiHalf - d * (PiHalf \div 2) + d * m * Ln2
SamePhase(a, b) == LET r == (a - b + 50) % 6283185 IN r <= 110

(* 24 times the Laguerre polynomials *)
L24(p, x) ==
  CASE p = 0 -> 24
    [] p = 1 -> 24 - 24*x
    [] p = 2 -> 24 - 48*x + 12*x*x
    [] p = 3 -> 24 - 72*x + 36*x*x - 4*x*x*x
    [] OTHER -> 24 - 96*x + 72*x*x - 16*x*x*x + x*x*x*x
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE IF k < 0 \/ k > n THEN 0
               ELSE Binom(n-1, k-1) + Binom(n-1, k)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n-1)
RECURSIVE SumTo(_, _, _)
SumTo(f, a, b) == IF a > b THEN 0 ELSE f[a] + SumTo(f, a+1, b)
(* Weight of mode n in a flattened pulse of order N, times (N+1) 2^N *)
Weight(N, n) == SumTo([m \in n..N |-> Pow(2, N-m) * Binom(m, n)], n, N)
(* Laguerre-Gauss over Gaussian, times 24 *)
RatioLG(p, x, d) == Turn(-p*d, <<L24(p, x), 0>>)
(* Flattened over Gaussian of the wider waist, times 24 (N+1) 2^N *)
RECURSIVE Modes(_, _, _, _)
Modes(N, n, x, d) == IF n > N THEN <<0, 0>>
  ELSE Add(Sc(Weight(N, n), RatioLG(n, x, d)), Modes(N, n+1, x, d))
RatioFlat(N, x, d) == Modes(N, 0, x, d)

(* --- sums ---------------------------------------------------------------- *)
(* A pulse: [wl, pol, leaves]; leaves are indices of cfg.leaves, whose value  *)
(* at point t is cfg.leaves[i].v[t].                                          *)
InitState(cfg) ==
  [i \in DOMAIN cfg.leaves |-> [wl |-> cfg.leaves[i].wl, pol |-> cfg.leaves[i].pol,
                                leaves |-> <<i>>]]
Summable(p, q) == p.wl = q.wl /\ p.pol = q.pol
Sum(p, q) == [wl |-> p.wl, pol |-> p.pol, leaves |-> p.leaves \o q.leaves]
RECURSIVE Value(_, _, _)
Value(cfg, ls, t) == IF ls = <<>> THEN <<0, 0>>
  ELSE Add(cfg.leaves[Head(ls)].v[t], Value(cfg, Tail(ls), t))

Guards(cfg, st, ev) ==
  CASE ev.a = "point" -> << <<"P20.shape", ev.v = Gauss(ev.a0, ev.q, ev.d)>> >>
    [] ev.a = "phase" ->
       << <<"P20.shape", ev.mod2 = ev.a0 * ev.a0>>,
          <<"P20.shape", SamePhase(ev.arg, Phase(ev.q, ev.d, ev.m))>> >>
    [] ev.a = "lg" -> << <<"P20.shape", ev.v = RatioLG(ev.p, ev.x, ev.d)>> >>
    [] ev.a = "flat" -> << <<"P20.shape", ev.v = RatioFlat(ev.N, ev.x, ev.d)>> >>
    [] ev.a = "sum" ->
       << <<"P20.summable", ev.ok = Summable(st[ev.i], st[ev.j])>>,
          <<"P20.properties", ev.ok => ev.wl = st[ev.i].wl /\ ev.pol = st[ev.i].pol>> >>
    [] ev.a = "value" ->
       << <<"P20.additive", ev.v = Value(cfg, st[ev.i].leaves, ev.t)>>,
          <<"P20.properties", ev.wl = st[ev.i].wl /\ ev.pol = st[ev.i].pol>> >>
    [] ev.a = "speed" ->      \* group velocity: plasma and light frequencies
       << <<"P20.speed", ev.v = ev.light /\ ev.plasma*ev.plasma + ev.light*ev.light = ev.hyp*ev.hyp>> >>
    [] ev.a = "law" -> << <<"P20." \o ev.law, ev.dev <= 1000>> >>
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  IF ev.a = "sum" /\ Summable(st[ev.i], st[ev.j]) THEN Append(st, Sum(st[ev.i], st[ev.j]))
  ELSE st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
