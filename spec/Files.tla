------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* Saving bunches to files and reading them back.                          *)
(*                                                                         *)
(* A bunch: [sp, name, ps] with particles [x, y, z, px, py, pz, w] in         *)
(* integer units.  A file: [fmt, content], content a sequence of             *)
(* [species, ps, sp, off] (off: longitudinal offset of the stored            *)
(* positions).  What is read back is centred: longitudinal positions are      *)
(* observed multiplied by the total weight.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumTo(_, _, _)
SumTo(ps, F(_), n) == IF n = 0 THEN 0 ELSE F(ps[n]) + SumTo(ps, F, n - 1)
Sum(ps, F(_)) == SumTo(ps, F, Len(ps))
Weight(ps) == Sum(ps, LAMBDA p : p.w)
ZSum(ps) == Sum(ps, LAMBDA p : p.w * p.z)

Formats == {"openpmd", "astra", "csrtrack"}
CanStore(fmt, sp) ==
  CASE fmt = "openpmd" -> TRUE
    [] fmt = "astra" -> sp \in {"electron", "positron"}
    [] fmt = "csrtrack" -> sp = "electron"
    [] OTHER -> FALSE
NoFile == [fmt |-> "none", content |-> <<>>]
InitState(cfg) == [files |-> [p \in 1..cfg.paths |-> NoFile]]

(* Path under which a file is found: an extension is added if missing. *)
Save(cfg, st, ev) ==
  LET b == cfg.bunches[ev.b]
      name == IF ev.species = "" THEN b.name ELSE ev.species
  IN [st EXCEPT !.files[ev.p] =
        [fmt |-> ev.fmt,
         content |-> << [species |-> IF ev.fmt = "openpmd" THEN name ELSE "",
                         ps |-> b.ps, sp |-> b.sp, off |-> 0] >>]]
Diag(cfg, st, ev) ==
  [st EXCEPT !.files[ev.p] =
     [fmt |-> "openpmd",
      content |-> [k \in DOMAIN ev.bs |->
        [species |-> cfg.bunches[ev.bs[k]].name, ps |-> cfg.bunches[ev.bs[k]].ps,
         sp |-> cfg.bunches[ev.bs[k]].sp, off |-> ev.off]]]]

Named(f, s) == {k \in DOMAIN f.content : f.content[k].species = s}
Choice(f, ev) ==
  IF f.fmt # "openpmd" THEN (IF Len(f.content) = 1 THEN 1 ELSE 0)
  ELSE IF ev.species = ""
       THEN (IF Len(f.content) = 1 THEN 1 ELSE 0)
       ELSE IF Named(f, ev.species) = {} THEN 0
            ELSE CHOOSE k \in Named(f, ev.species) : TRUE
Readable(st, ev) ==
  /\ ev.fmt \in Formats /\ st.files[ev.p].fmt = ev.fmt
  /\ Choice(st.files[ev.p], ev) # 0

(* Expected observation of a stored bunch. *)
SameAs(o, q, W, zs) ==
  /\ o.x = q.x * W /\ o.y = q.y * W /\ o.px = q.px * W /\ o.py = q.py * W
  /\ o.pz = q.pz * W /\ o.xi = q.z * W - zs
IsReference(o, ps, W) ==
  /\ o.xi = 0
  /\ o.x = Sum(ps, LAMBDA p : p.w * p.x) /\ o.y = Sum(ps, LAMBDA p : p.w * p.y)
  /\ o.px = Sum(ps, LAMBDA p : p.w * p.px) /\ o.py = Sum(ps, LAMBDA p : p.w * p.py)
  /\ o.pz = Sum(ps, LAMBDA p : p.w * p.pz)
Extra(fmt) == IF fmt = "openpmd" THEN 0 ELSE 1
ReadGuards(st, ev) ==
  LET f == st.files[ev.p]
      e == f.content[Choice(f, ev)]
      n == Len(e.ps)
      W == Weight(e.ps)
      zs == ZSum(e.ps)
      x == Extra(ev.fmt)
      g == ev.got
      sized == Len(g.ps) = n + x
  IN << <<"P25.particles", sized>>,
        <<"P25.particles", sized => \A i \in 1..n : SameAs(g.ps[i + x], e.ps[i], W, zs)>>,
        <<"P25.weights", sized => \A i \in 1..n : g.ps[i + x].w = e.ps[i].w * n>>,
        <<"P25.reference", (sized /\ x = 1) => IsReference(g.ps[1], e.ps, W) /\ g.ps[1].w = W>>,
        <<"P25.species", g.sp = e.sp>>,
        <<"P25.name", IF ev.name # "" THEN g.name = ev.name
                      ELSE IF ev.fmt = "openpmd" THEN g.name = e.species
                      ELSE g.fresh>>,
        <<"P25.position", g.prop = IF ev.keep THEN zs + e.off * W ELSE 0>> >>

Guards(cfg, st, ev) ==
  CASE ev.a = "save" ->
       << <<"P25.rejected", ev.ok = CanStore(ev.fmt, cfg.bunches[ev.b].sp)>>,
          <<"P25.untouched", ev.same>> >>
    [] ev.a = "diag" -> << <<"P25.rejected", ev.ok>>, <<"P25.untouched", ev.same>> >>
    [] ev.a = "read" ->
       IF ~ev.ok THEN << <<"P25.rejected", ~Readable(st, ev)>> >>
       ELSE IF ~Readable(st, ev) THEN << <<"P25.rejected", FALSE>> >>
       ELSE ReadGuards(st, ev)
    [] ev.a = "raw" -> << <<"P25.particles", ev.same>> >>
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  CASE ev.a = "save" -> IF CanStore(ev.fmt, cfg.bunches[ev.b].sp) THEN Save(cfg, st, ev) ELSE st
    [] ev.a = "diag" -> Diag(cfg, st, ev)
    [] OTHER -> st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
