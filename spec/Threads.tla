------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* The same simulation run with different numbers of threads, again in the  *)
(* same process, and compiled or interpreted.                               *)
(*                                                                         *)
(* Loops over particles are divided among threads.  A loop is safe if every   *)
(* iteration writes to cells of its own, or if it is run by one thread.       *)
(* Safe loops have one result, that of the sequential loop, under every       *)
(* schedule (checked in MCThreads); a simulation made of safe loops has one    *)
(* result, whatever the number of threads.                                   *)
(*                                                                         *)
(* State: the scenarios whose reference result is known.                     *)
(* Event run: scenario ev.s was run with ev.threads threads, compiled or not;  *)
(* ev.dev[q] is the deviation of quantity q from the first run of the         *)
(* scenario, in units of 1e-12 of its size (0 for the first run itself).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* A loop: target[i] is the cell that iteration i adds val[i] to; team is the  *)
(* number of threads running it.                                             *)
Safe(target, team) == team = 1 \/ \A i, j \in DOMAIN target : i # j => target[i] # target[j]
RECURSIVE SumTo(_, _, _, _)
SumTo(target, val, cell, n) ==
  IF n = 0 THEN 0 ELSE SumTo(target, val, cell, n - 1) + (IF target[n] = cell THEN val[n] ELSE 0)
Sequential(target, val, cells) == [x \in cells |-> SumTo(target, val, x, Len(target))]

InitState(cfg) == [known |-> {}]

Tolerance(cfg, ev) == IF ev.compiled THEN cfg.tol ELSE cfg.loose
Guards(cfg, st, ev) ==
  CASE ev.a = "run" ->
       << <<"P32.same-result", ev.s \in st.known =>
             \A q \in DOMAIN ev.dev : ev.dev[q] <= Tolerance(cfg, ev)>>,
          <<"P32.finite", ev.finite>> >>
    [] ev.a = "setting" ->
       (* Number of threads of the program before, and after a tracking. *)
       << <<"P32.restored", ev.after = ev.before>> >>
    [] OTHER -> << <<"ANY.no-failure", FALSE>> >>
Effect(cfg, st, ev) ==
  IF ev.a = "run" THEN [known |-> st.known \union {ev.s}] ELSE st
Failed(gs) == {gs[i][1] : i \in {j \in DOMAIN gs : ~gs[j][2]}}
=============================================================================
