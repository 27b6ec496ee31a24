------------------------------ MODULE Bunches ------------------------------
(***************************************************************************)
(* Bunch objects, their copies and the outputs returned by tracking, as    *)
(* values.  Every attribute of an object (arrays and scalars) is a token;  *)
(* equal tokens mean bitwise equal contents.                               *)
(*                                                                         *)
(* State: obj, the attributes of every object created so far, and auto,    *)
(* the names given automatically so far.                                   *)
(* Every event carries `all`: the attributes of all objects (including new *)
(* ones, at the end) observed after it.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Phase == {"x", "y", "xi", "px", "py", "pz"}
Place == {"prop", "xref", "thref"}
(* What tracking never changes. *)
Kept == {"w", "tags", "tflight", "zinj", "name", "q", "m", "n"}
Attrs == Phase \union Place \union Kept

InitState(cfg) == [obj |-> <<>>, auto |-> {}]

Same(r, s, as) == \A a \in as : r[a] = s[a]
(* All objects but those in S are as before. *)
Frame(st, ev, S) ==
  /\ Len(ev.all) >= Len(st.obj)
  /\ \A i \in 1..Len(st.obj) : i \notin S => Same(ev.all[i], st.obj[i], Attrs)
NewObjs(st, ev) == (Len(st.obj) + 1)..Len(ev.all)

(* A new bunch; ev.unnamed if it was given no name. *)
NewGuards(cfg, st, ev) ==
  << <<"P10.frame", Frame(st, ev, {})>>,
     <<"P10.one-new", Len(ev.all) = Len(st.obj) + 1>>,
     <<"P10.unique-name", ev.unnamed => ev.all[Len(ev.all)].name \notin st.auto>> >>

(* Many unnamed bunches, discarded; ev.names are the names they got. *)
NamesGuards(cfg, st, ev) ==
  << <<"P10.frame", Frame(st, ev, {})>>,
     <<"P10.unique-name",
       /\ Cardinality({ev.names[i] : i \in 1..Len(ev.names)}) = Len(ev.names)
       /\ \A i \in 1..Len(ev.names) : ev.names[i] \notin st.auto>> >>

(* Object ev.o is copied. *)
CopyGuards(cfg, st, ev) ==
  << <<"P10.frame", Frame(st, ev, {})>>,
     <<"P10.one-new", Len(ev.all) = Len(st.obj) + 1>>,
     <<"P10.copy-complete", Len(ev.all) > Len(st.obj) =>
          Same(ev.all[Len(st.obj) + 1], st.obj[ev.o], Attrs)>> >>

(* The user changes attribute ev.at of object ev.o. *)
EditGuards(cfg, st, ev) ==
  << <<"P10.frame", Frame(st, ev, {ev.o})>>,
     <<"P10.edit-only-that", Same(ev.all[ev.o], st.obj[ev.o], Attrs \ {ev.at})>> >>

(* The objects in ev.os are tracked; outs[i] are the new objects returned  *)
(* for the i-th one.  ev.kind: "field" or "tm"; ev.initial: the first       *)
(* output is the initial bunch; ev.final: the last output is the final one *)
TrackGuards(cfg, st, ev) ==
  LET S == {ev.os[i] : i \in 1..Len(ev.os)} IN
  << <<"P10.frame", Frame(st, ev, S)>>,
     <<"P09.kept", \A i \in S : Same(ev.all[i], st.obj[i], Kept)>>,
     <<"P09.kept-in-outputs", \A i \in 1..Len(ev.os) : \A j \in 1..Len(ev.outs[i]) :
          Same(ev.all[ev.outs[i][j]], st.obj[ev.os[i]], Kept)>>,
     <<"P10.first-output", ev.initial => \A i \in 1..Len(ev.os) :
          Len(ev.outs[i]) > 0 => Same(ev.all[ev.outs[i][1]], st.obj[ev.os[i]], Attrs)>>,
     <<"P10.last-output", ev.final => \A i \in 1..Len(ev.os) :
          Len(ev.outs[i]) > 0 =>
            Same(ev.all[ev.outs[i][Len(ev.outs[i])]], ev.all[ev.os[i]], Attrs)>>,
     <<"P10.number-of-objects",
          NewObjs(st, ev) = UNION {{ev.outs[i][j] : j \in 1..Len(ev.outs[i])}
                                   : i \in 1..Len(ev.os)}>> >>

(* Particles of a bunch tracked together, alone, and in another order:     *)
(* alone[i] is the particle of the whole that the i-th one tracked alone   *)
(* agrees with; perm is a permutation, permuted[i] the particle of the     *)
(* whole with which the i-th particle of the permuted bunch agrees.        *)
AloneGuards(cfg, st, ev) ==
  << <<"P09.as-alone", \A i \in 1..Len(ev.alone) : ev.alone[i] = i>>,
     <<"P09.order-kept", ev.permuted = ev.perm>> >>

(* The particles ev.want of the whole, in a bunch that had other particles  *)
(* before: got[i] is the particle of the whole its i-th one agrees with.    *)
ReplacedGuards(cfg, st, ev) == << <<"P09.present-particles", ev.got = ev.want>> >>

Guards(cfg, st, ev) ==
  CASE ev.a = "new" -> NewGuards(cfg, st, ev)
    [] ev.a = "names" -> NamesGuards(cfg, st, ev)
    [] ev.a = "copy" -> CopyGuards(cfg, st, ev)
    [] ev.a = "edit" -> EditGuards(cfg, st, ev)
    [] ev.a = "track" -> TrackGuards(cfg, st, ev)
    [] ev.a = "alone" -> AloneGuards(cfg, st, ev)
    [] ev.a = "replaced" -> ReplacedGuards(cfg, st, ev)
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  IF ev.a \in {"new", "copy", "edit", "track"}
  THEN [obj |-> ev.all,
        auto |-> IF ev.a = "new" /\ ev.unnamed
                 THEN st.auto \union {ev.all[Len(ev.all)].name} ELSE st.auto]
  ELSE IF ev.a = "names"
  THEN [st EXCEPT !.auto = @ \union {ev.names[i] : i \in 1..Len(ev.names)}]
  ELSE st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
