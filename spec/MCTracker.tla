----------------------------- MODULE MCTracker -----------------------------
(* Exhaustive exploration of the design: every configuration of the small   *)
(* space below and, for each, every behaviour whose guards hold.            *)
EXTENDS Tracker, TLC

CONSTANTS LEN, DTS, FDTS, NOUTS, MAXB, MAXF

BunchCfgs == [auto : {FALSE}, dt : DTS, a2 : {0}, a3 : {1}, inj : {-1, 5}]
             \union [auto : {TRUE}, dt : {1, 2}, a2 : {1, 3}, a3 : {4}, inj : {-1}]
FieldCfgs == [dt : FDTS, even : {FALSE}]
             \union [dt : {d \in FDTS : LEN % CeilDiv(LEN, d) = 0}, even : {TRUE}]
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}

Cfgs == [L : {LEN}, nout : NOUTS, pre : BOOLEAN, obs : {TRUE}, pusher : {"boris"},
         bunches : SeqsUpTo(BunchCfgs, MAXB), fields : SeqsUpTo(FieldCfgs, MAXF)]

VARIABLES cfg, st, done
vars == <<cfg, st, done>>

Init == /\ cfg \in Cfgs
        /\ st = InitState(cfg)
        /\ done = FALSE

Started == \A f \in 1..NF(cfg) : st.fn[f] > 0

Ok(ev) == Failed(Guards(cfg, st, ev)) = {}

MkPush(b, s, e) ==
  [a |-> "push", b |-> b, s |-> s, e |-> e, felt |-> e - s, g |-> <<s + e>>, gx |-> <<s + e>>,
   ft |-> [f \in 1..NF(cfg) |-> FieldTime(cfg, st, f)]]
Push == \E b \in 1..NB(cfg), s \in 0..(LEN-1), e \in 1..LEN :
          /\ Started
          /\ (cfg.nout > 0 => st.k > 0)
          /\ Ok(MkPush(b, s, e))
          /\ st' = Effect(cfg, st, MkPush(b, s, e))
          /\ UNCHANGED <<cfg, done>>
MkCalc(f, t) == [a |-> "calc", f |-> f, t |-> t,
                 init |-> IF st.fn[f] = 0 THEN 1 ELSE 0,
                 evolve |-> IF st.fn[f] = 0 THEN 0 ELSE 1,
                 seen |-> [b \in 1..NB(cfg) |-> Reached(cfg, b, st.bt[b], t)]]
Calc == \E f \in 1..NF(cfg), t \in 0..LEN :
          /\ t = 0 \/ Started
          /\ (cfg.nout > 0 /\ t > 0 => st.k > 0)
          /\ Ok(MkCalc(f, t))
          /\ st' = Effect(cfg, st, MkCalc(f, t))
          /\ UNCHANGED <<cfg, done>>
MkOut(t) == [a |-> "out", t |-> t,
             pos |-> [b \in 1..NB(cfg) |->
                       IF cfg.pre /\ cfg.bunches[b].inj > st.bt[b] THEN t
                       ELSE Reached(cfg, b, st.bt[b], t)]]
Out == \E t \in 0..LEN :
          /\ cfg.nout > 0
          /\ Started
          /\ Ok(MkOut(t))
          /\ st' = Effect(cfg, st, MkOut(t))
          /\ UNCHANGED <<cfg, done>>
MkEnd == [a |-> "end", pos |-> [b \in 1..NB(cfg) |-> LEN],
          xpos |-> [b \in 1..NB(cfg) |-> LEN],
          outs |-> [b \in 1..NB(cfg) |-> [k \in 1..Len(st.outs) |-> st.outs[k][b]]],
          first |-> [b \in 1..NB(cfg) |-> TRUE],
          last |-> [b \in 1..NB(cfg) |-> TRUE],
          own |-> [b \in 1..NB(cfg) |-> TRUE]]
End == /\ ~done
       /\ Started
       /\ Ok(MkEnd)
       /\ done' = TRUE
       /\ UNCHANGED <<cfg, st>>

Next == ~done /\ (Push \/ Calc \/ Out \/ End)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == /\ \A b \in 1..NB(cfg) : st.bt[b] \in 0..LEN
          /\ st.k \in 0..(cfg.nout + 1)
(* No bunch may run ahead of a field evaluation or output still to come. *)
Causal == \A b \in 1..NB(cfg) : \A f \in 1..NF(cfg) :
             Started => st.bt[b] <= FieldNext(cfg, st, f)
(* No field is evaluated before all steps that end earlier have been made. *)
FieldsBehind == \A b \in 1..NB(cfg) : \A f \in 1..NF(cfg) :
             (Started /\ FieldTime(cfg, st, f) > 0)
               => LET p == Reached(cfg, b, st.bt[b], FieldTime(cfg, st, f)) IN
                  p >= LEN \/ p + Want(cfg, b, p) > FieldTime(cfg, st, f)
OutputsOrdered == Len(st.outs) = st.k
                  /\ \A i, j \in 1..st.k : i < j =>
                       \A b \in 1..NB(cfg) : st.outs[i][b] <= st.outs[j][b]
(* With the option off, the bunch positions shown do not depend on outputs. *)
OutputsNeutral == ~cfg.pre => \A b \in 1..NB(cfg) : \A i \in 1..st.k :
                    st.outs[i][b] = ShownAt(cfg, b, 0, OutPos(cfg, i - 1))
Complete == done => /\ \A b \in 1..NB(cfg) : Active(cfg, b, st.bt[b]) = LEN
                    /\ \A f \in 1..NF(cfg) : FieldTime(cfg, st, f) <= LEN
                    /\ \A f \in 1..NF(cfg) : cfg.fields[f].even => FieldTime(cfg, st, f) = LEN
                    /\ cfg.nout > 0 => st.k = cfg.nout + 1
EvenNeverLarger == \A f \in 1..NF(cfg) : Period(cfg, f) <= cfg.fields[f].dt
(* Never stuck before the end: some action is possible in every state. *)
NotStuck == done \/ ENABLED Next
Terminates == <>done
=============================================================================
