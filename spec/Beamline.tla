------------------------------ MODULE Beamline ------------------------------
(***************************************************************************)
(* Tracking of bunches through trees of beamlines and elements, and the    *)
(* series of openPMD files written on the way.                             *)
(*                                                                         *)
(* cfg.rows[i] describes the i-th element of the whole line: its length L  *)
(* in ticks, its kind, its number of outputs n (-1: none requested from a  *)
(* transfer-map element) and, as tokens, what tracking it by hand after    *)
(* the elements before it gives: the outputs (outs, one token per returned *)
(* entry) and the final bunches (fin).  cont gives, for each output of the *)
(* element, the token of the particle data of every species.               *)
(*                                                                         *)
(* State: pos elements done; n files written and z position reached by the *)
(* diagnostics in use; dir which diagnostics object is in use.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Flatten(_), FlattenSeq(_)
(* A tree is [leaf |-> TRUE, i |-> element] or [leaf |-> FALSE, c |-> <<trees>>]. *)
Flatten(t) == IF t.leaf THEN <<t.i>> ELSE FlattenSeq(t.c)
FlattenSeq(ts) == IF ts = <<>> THEN <<>> ELSE Flatten(Head(ts)) \o FlattenSeq(Tail(ts))

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

(* Positions, inside an element, of the files it writes. *)
OutPositions(row) ==
  IF row.n <= 0 THEN <<>>
  ELSE IF row.kind = "field" THEN [k \in 1..(row.n + 1) |-> (k - 1) * (row.L \div row.n)]
  ELSE [k \in 1..row.n |-> k * (row.L \div row.n)]

(* Global positions of all files of a sequence of elements starting at z. *)
RECURSIVE FilePositions(_, _, _)
FilePositions(cfg, es, z) ==
  IF es = <<>> THEN <<>>
  ELSE LET row == cfg.rows[Head(es)]
           ps == OutPositions(row)
       IN [k \in 1..Len(ps) |-> z + ps[k]] \o FilePositions(cfg, Tail(es), z + row.L)

Length(cfg, es) == SumSeq([k \in 1..Len(es) |-> cfg.rows[es[k]].L])
OutsOf(cfg, es) == Concat([k \in 1..Len(es) |-> cfg.rows[es[k]].outs])
ContOf(cfg, es) == Concat([k \in 1..Len(es) |->
                     IF cfg.rows[es[k]].n <= 0 THEN <<>> ELSE cfg.rows[es[k]].cont])

InitState(cfg) == [pos |-> 0, n |-> 0, z |-> 0]

(* ev: tree, outs, fin, prop (distance made by the bunches since the start *)
(* of the line), written (files are written), files (idx, t, zoff per      *)
(* species, names, cont)                                                   *)
TrackGuards(cfg, st, ev) ==
  LET es == Flatten(ev.tree)
      fp == FilePositions(cfg, es, st.z)
      last == st.pos + Len(es)
  IN
  << <<"P06.outputs", ev.outs = OutsOf(cfg, es)>>,
     <<"P06.final", ev.fin = cfg.rows[last].fin>>,
     <<"P06.distance", ev.prop = Length(cfg, [i \in 1..last |-> i])>>,
     <<"P07.number-of-files", Len(ev.files) = IF ev.written THEN Len(fp) ELSE 0>>,
     <<"P07.nothing-without-diagnostics", ~ev.written => ev.stray = 0>>,
     <<"P07.numbering", \A k \in 1..Len(ev.files) : ev.files[k].idx = st.n + k - 1>>,
     <<"P07.time", ev.written => \A k \in 1..Len(ev.files) :
                     k <= Len(fp) => ev.files[k].t = fp[k]>>,
     <<"P07.offset", \A k \in 1..Len(ev.files) : \A s \in 1..Len(ev.files[k].zoff) :
                     k <= Len(fp) => ev.files[k].zoff[s] = fp[k]>>,
     <<"P08.species", \A k \in 1..Len(ev.files) : ev.files[k].names = cfg.names>>,
     <<"P08.particles", \A k \in 1..Len(ev.files) :
          k <= Len(ContOf(cfg, es)) => ev.files[k].cont = ContOf(cfg, es)[k]>>,
     <<"P08.species-properties", \A k \in 1..Len(ev.files) : ev.files[k].qm>> >>
TrackNext(cfg, st, ev) ==
  LET es == Flatten(ev.tree) IN
  [pos |-> st.pos + Len(es),
   n |-> IF ev.written THEN st.n + Len(FilePositions(cfg, es, st.z)) ELSE st.n,
   z |-> IF ev.written THEN st.z + Length(cfg, es) ELSE st.z]

(* Output of several species with the same name is attempted. *)
DupGuards(cfg, st, ev) ==
  << <<"P07.duplicate-rejected", ev.raised = "ValueError">>,
     <<"P07.duplicate-writes-nothing", ev.files = 0>> >>

(* The grids of a plasma field in the file written at position ev.pos of   *)
(* an element with the update period cfg.period: the values v[r][z] of     *)
(* component ev.comp encode evaluation, component and cell.                *)
MeshCode(e, comp, r, z, nr) == 100000 * e + 10000 * comp + 100 * (z - 1) + (r - 1)
Evaluations(cfg, pos) == pos \div cfg.period + 1
MeshGuards(cfg, st, ev) ==
  << <<"P08.grid-shape", Len(ev.v) = cfg.nr /\ \A r \in 1..Len(ev.v) : Len(ev.v[r]) = cfg.nz>>,
     <<"P08.grid-values", \A r \in DOMAIN ev.v : \A z \in DOMAIN ev.v[r] :
          ev.v[r][z] % 100000 = MeshCode(0, ev.comp, r, z, cfg.nr)>>,
     <<"P08.grid-latest-evaluation", \A r \in DOMAIN ev.v : \A z \in DOMAIN ev.v[r] :
          ev.v[r][z] \div 100000 = Evaluations(cfg, ev.pos)>>,
     <<"P08.grid-spacing", ev.dr = cfg.dr /\ ev.dz = cfg.dz>>,
     <<"P08.grid-offset", ev.off = ev.z0 + ev.pos>> >>

(* The laser envelope in that file: ev.eval is the evaluation at which the *)
(* stored amplitude, modulus or phase was the envelope in use.             *)
LaserGuards(cfg, st, ev) ==
  << <<"P08.laser-envelope", ev.eval = Evaluations(cfg, ev.pos)>>,
     <<"P08.laser-grid", ev.dr = cfg.dr /\ ev.dz = cfg.dz /\ ev.off = ev.z0 + ev.pos>> >>

(* Physical dimension (length, mass, time, current, ...) of a record.     *)
Dimension(r) ==
  CASE r \in {"position", "positionOffset"} -> <<1, 0, 0, 0, 0, 0, 0>>
    [] r = "momentum" -> <<1, 1, -1, 0, 0, 0, 0>>
    [] r = "charge" -> <<0, 0, 1, 1, 0, 0, 0>>
    [] r = "mass" -> <<0, 1, 0, 0, 0, 0, 0>>
    [] r = "E" -> <<1, 1, -3, -1, 0, 0, 0>>
    [] r = "B" -> <<0, 1, -2, -1, 0, 0, 0>>
    [] r = "rho" -> <<-3, 0, 1, 1, 0, 0, 0>>
    [] OTHER -> <<>>
DimsGuards(cfg, st, ev) ==
  << <<"P08.dimension", ev.dim = Dimension(ev.rec)>> >>
(* Values belong to the centre of the cell in r and its start in z.        *)
PointGuards(cfg, st, ev) == << <<"P08.grid-offset", ev.at = <<1, 0>> >> >>

(* Outputs of an element of length ev.L with ev.n outputs and no bunches.  *)
NoBunchGuards(cfg, st, ev) ==
  << <<"P07.number-of-files", Len(ev.files) = ev.n + 1>>,
     <<"P07.numbering", \A k \in 1..Len(ev.files) : ev.files[k].idx = st.n + k - 1>>,
     <<"P07.time", \A k \in 1..Len(ev.files) :
          ev.files[k].t = st.z + (k - 1) * (ev.L \div ev.n)>>,
     <<"P08.species", \A k \in 1..Len(ev.files) : ev.files[k].names = <<>> >> >>

(* A bunch read back from a file. *)
ReadGuards(cfg, st, ev) ==
  << <<"P08.read-back", ev.got = ev.want>>,
     <<"P08.read-species", ev.qm>>,
     <<"P08.read-centred", ev.centred>> >>

(* A new diagnostics object is used from now on. *)
Guards(cfg, st, ev) ==
  CASE ev.a = "track" -> TrackGuards(cfg, st, ev)
    [] ev.a = "dup" -> DupGuards(cfg, st, ev)
    [] ev.a = "newdiag" -> <<>>
    [] ev.a = "mesh" -> MeshGuards(cfg, st, ev)
    [] ev.a = "laser" -> LaserGuards(cfg, st, ev)
    [] ev.a = "nobunch" -> NoBunchGuards(cfg, st, ev)
    [] ev.a = "dims" -> DimsGuards(cfg, st, ev)
    [] ev.a = "point" -> PointGuards(cfg, st, ev)
    [] ev.a = "read" -> ReadGuards(cfg, st, ev)
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  CASE ev.a = "track" -> TrackNext(cfg, st, ev)
    [] ev.a = "newdiag" -> [st EXCEPT !.n = 0, !.z = 0]
    [] ev.a = "nobunch" -> [st EXCEPT !.n = @ + ev.n + 1, !.z = @ + ev.L]
    [] OTHER -> st

Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
