---------------------------- MODULE TraceCsr ----------------------------
(* Validates traces recorded from the real code against Csr.tla.          *)
EXTENDS Csr, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, l, st, bad
vars == <<tr, l, st, bad>>

Init == /\ tr \in DOMAIN Traces
        /\ l = 1
        /\ st = InitState(Traces[tr].cfg)
        /\ bad = {}

Report(t, pos, names) ==
  \A n \in names : PrintT("BAD " \o ToString(t) \o " " \o ToString(pos) \o " " \o n)

Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET cfg == Traces[tr].cfg
         ev == Traces[tr].ev[l]
         f == Failed(Guards(cfg, st, ev)) \ bad
     IN /\ Report(tr, l, f)
        /\ bad' = bad \union f
        /\ st' = Effect(cfg, st, ev)
  /\ l' = l + 1
  /\ tr' = tr
  /\ (l' > Len(Traces[tr].ev)) => PrintT("DONE " \o ToString(tr))

Spec == Init /\ [][Next]_vars
=============================================================================
