------------------------------ MODULE MCPulse ------------------------------
(* Sums of pulses are independent of order and grouping; flattened pulses    *)
(* have the requested peak, and their modes agree with the closed form       *)
(* sum_m L_m(x/2) / (N+1).                                                   *)
EXTENDS Pulse, TLC
CONSTANTS MaxPulses
VARIABLES st
Leaves == << [wl |-> 1, pol |-> "linear", v |-> <<<<1, 0>>>>],
             [wl |-> 1, pol |-> "linear", v |-> <<<<0, 10>>>>],
             [wl |-> 2, pol |-> "linear", v |-> <<<<100, 0>>>>],
             [wl |-> 1, pol |-> "circular", v |-> <<<<0, 1000>>>>] >>
Cfg == [leaves |-> Leaves]
Init == st = InitState(Cfg)
Next == /\ Len(st) < MaxPulses
        /\ \E i, j \in DOMAIN st : /\ Summable(st[i], st[j])
              /\ st' = Effect(Cfg, st, [a |-> "sum", i |-> i, j |-> j])
Spec == Init /\ [][Next]_st
V(p) == Value(Cfg, p.leaves, 1)
Homogeneous == \A i \in DOMAIN st : \A k \in DOMAIN st[i].leaves :
   Leaves[st[i].leaves[k]].wl = st[i].wl /\ Leaves[st[i].leaves[k]].pol = st[i].pol
Additive == \A i, j \in DOMAIN st :
   Summable(st[i], st[j]) => /\ V(Sum(st[i], st[j])) = Add(V(st[i]), V(st[j]))
                             /\ V(Sum(st[i], st[j])) = V(Sum(st[j], st[i]))
                             /\ Summable(st[j], st[i])
Kept == [][SubSeq(st', 1, Len(st)) = st]_st
(* 24*16 L_m(y/2) *)
H(m, y) == CASE m = 0 -> 384
    [] m = 1 -> 384 - 192*y
    [] m = 2 -> 384 - 384*y + 48*y*y
    [] m = 3 -> 384 - 576*y + 144*y*y - 8*y*y*y
    [] OTHER -> 384 - 768*y + 288*y*y - 32*y*y*y + y*y*y*y
ASSUME \A N \in 0..4 : RatioFlat(N, 0, 0) = <<24 * (N+1) * Pow(2, N), 0>>
ASSUME \A N \in 0..4, x \in 0..6 :
   16 * RatioFlat(N, x, 0)[1] = Pow(2, N) * SumTo([m \in 0..N |-> H(m, x)], 0, N)
=============================================================================
