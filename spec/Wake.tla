-------------------------------- MODULE Wake --------------------------------
(***************************************************************************)
(* Response of the self-consistent plasma models to their drivers.           *)
(*                                                                         *)
(* The grid has slices 1..n (n: foremost) and rings 1..nr.  A calculation is   *)
(* given bunches (particles [i, r, q]: slice, ring and charge; anything       *)
(* outside the grid does not count) and at most one laser pulse (centre         *)
(* slice and intensity).  What it returns is observed as one token per slice:   *)
(* equal tokens of a slice are equal fields (in units of the wave-breaking     *)
(* field), 0 is the unperturbed plasma.  Fields are a function of the sources   *)
(* at and ahead of a slice, up to cfg.reach (lreach for the laser) slices of     *)
(* particle shape, pulse length and difference stencils.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumSeq(_, _)
SumSeq(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumSeq(s, n - 1)
ChargeIn(b, i, r) == SumSeq([k \in DOMAIN b |-> IF b[k].i = i /\ b[k].r = r THEN b[k].q ELSE 0],
                            Len(b))
Source(cfg, ev) ==
  [i \in 1..cfg.n |-> [r \in 1..cfg.nr |->
     SumSeq([k \in DOMAIN ev.bs |-> ChargeIn(ev.bs[k], i, r)], Len(ev.bs))]]
(* Cycle-averaged intensity: a circularly polarised pulse counts twice. *)
Intensity(l) == IF l.pol = "none" THEN 0 ELSE IF l.pol = "circular" THEN 2 * l.i ELSE l.i
Laser(ev) == <<IF Intensity(ev.laser) = 0 THEN 0 ELSE ev.laser.c, Intensity(ev.laser)>>
Empty(cfg, s) == \A i \in 1..cfg.n, r \in 1..cfg.nr : s[i][r] = 0

InitState(cfg) == [past |-> <<>>]
Result(cfg, ev) == [src |-> Source(cfg, ev), las |-> Laser(ev), tok |-> ev.tok]

LaserBehind(cfg, l, i) == l[2] = 0 \/ l[1] + cfg.lreach < i
AgreeAhead(cfg, a, b, i) ==
  /\ \A j \in 1..cfg.n : j + cfg.reach >= i => a.src[j] = b.src[j]
  /\ a.las = b.las \/ (LaserBehind(cfg, a.las, i) /\ LaserBehind(cfg, b.las, i))
Determined(cfg, a, b) ==
  \A i \in 1..cfg.n : AgreeAhead(cfg, a, b, i) => a.tok[i] = b.tok[i]
SameSources(a, b) == a.src = b.src /\ a.las = b.las
Responds(a, b) == ~SameSources(a, b) => a.tok # b.tok

Guards(cfg, st, ev) ==
  CASE ev.a = "wake" ->
       IF Len(ev.tok) # cfg.n THEN << <<"ANY.no-failure", FALSE>> >>
       ELSE LET e == Result(cfg, ev) IN
       << <<"P28.sources", \A k \in DOMAIN st.past :
              SameSources(e, st.past[k]) => e.tok = st.past[k].tok>>,
          <<"P28.causal", \A k \in DOMAIN st.past : Determined(cfg, e, st.past[k])>>,
          <<"P28.responds", \A k \in DOMAIN st.past : Responds(e, st.past[k])>>,
          <<"P28.quiet", \A i \in 1..cfg.n :
              ((\A j \in 1..cfg.n, r \in 1..cfg.nr : j + cfg.reach >= i => e.src[j][r] = 0)
                 /\ LaserBehind(cfg, e.las, i)) => e.tok[i] = 0>>,
          <<"P28.untouched", ev.same>> >>
    [] ev.a = "law" -> << <<ev.law, ev.dev <= ev.bound>> >>
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  IF ev.a = "wake" /\ Len(ev.tok) = cfg.n
  THEN [past |-> Append(st.past, Result(cfg, ev))] ELSE st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
