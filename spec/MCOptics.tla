------------------------------ MODULE MCOptics ------------------------------
(* All sequences of up to Depth elements: phase-space areas are conserved,   *)
(* the reference particle stays on the reference, elements can be split into *)
(* pieces at will, opposite bends cancel, a chicane closes and going back undoes an element.              *)
EXTENDS Optics, TLC
CONSTANTS Depth
VARIABLES base, st, hist, bends
vars == <<base, st, hist, bends>>
Q(x, u, y, v, d) == [x |-> x, u |-> u, y |-> y, v |-> v, l |-> 0, d |-> d, known |-> TRUE]
B == 480000
Start == << Q(0, 0, 0, 0, 0), Q(B, 0, 0, 0, 0), Q(0, B, 0, 0, 0), Q(0, 0, B, 0, 0),
            Q(0, 0, 0, B, 0) >>
Cfg == [base |-> base, n |-> 625, p |-> <<<<4, 3>>>>, e |-> <<5>>, start |-> <<Start>>]
Elements == {[kind |-> "drift", len |-> 2, um |-> 2000000]}
  \union {[kind |-> "quad", sgn |-> s, k |-> 1, base |-> q, m |-> 2, um |-> 1000000] :
            s \in {-1, 1}, q \in {"quarter", "ln2"}}
  \union {[kind |-> "bend", sgn |-> s, rho |-> r, base |-> base, m |-> m, um |-> 3000000] :
            s \in {-1, 1}, r \in {1, 2}, m \in {1, 2}}
Hyperbolic(h) == \E i \in DOMAIN h : h[i].kind = "quad" /\ h[i].base = "ln2"
Straight(el) == el.kind # "bend"
Init == base \in {"quarter", "345"} /\ st = InitState(Cfg)[1] /\ hist = <<>> /\ bends = 0
Next == /\ Len(hist) < Depth
        /\ \E el \in Elements :
             /\ base = "345" => bends + (IF el.kind = "bend" THEN el.m ELSE 0) <= 3
             /\ el.kind = "quad" => Sin(Cfg, st.ang) = 0 /\ (base = "345" => bends = 0)
             /\ (el.kind = "quad" /\ el.base = "ln2") => ~Hyperbolic(hist)
             /\ st' = After(Cfg, 1, st, el, 1, 1)
             /\ hist' = Append(hist, el)
             /\ bends' = bends + (IF el.kind = "bend" THEN el.m ELSE 0)
        /\ UNCHANGED base
Spec == Init /\ [][Next]_vars
P(i) == st.ps[i]
(* areas in units of 10^4, to stay within integers *)
R(a) == a \div 480
AreaX == (~Hyperbolic(hist)) =>
  R(P(2).x) * R(P(3).u) - R(P(3).x) * R(P(2).u) = 1000 * 1000
Stays == OnReference(P(1))
EnergyKept == \A i \in DOMAIN st.ps : P(i).d = 0
Splits == \A el \in Elements :
  (el.kind = "bend" /\ base = "345" /\ bends > 1) \/ (el.kind = "quad" /\ base = "345" /\ bends > 0)
  \/ (el.kind = "quad" /\ el.base = "ln2" /\ Hyperbolic(hist))
  \/ LET n == 2
         half == IF el.kind = "drift" THEN [el EXCEPT !.len = el.len \div 2, !.um = el.um \div 2]
                 ELSE [el EXCEPT !.m = el.m \div 2, !.um = el.um \div 2]
         ok == IF el.kind = "drift" THEN TRUE ELSE el.m = 2
     IN ok => /\ After(Cfg, 1, After(Cfg, 1, st, half, 1, 1), half, 1, 1) = After(Cfg, 1, st, el, 1, 1)
              /\ After(Cfg, 1, st, el, 1, 2) = After(Cfg, 1, st, half, 1, 1)
Undone == \A el \in Elements :
  (base = "345" /\ (el.kind = "quad" \/ (el.kind = "bend" /\ (bends > 0 \/ el.m > 1))))
  \/ (el.kind = "quad" /\ el.base = "ln2")
  \/ After(Cfg, 1, After(Cfg, 1, st, el, 1, 1), el, -1, 1) = st
RECURSIVE Track(_, _)
Track(s, els) == IF els = <<>> THEN s ELSE Track(After(Cfg, 1, s, Head(els), 1, 1), Tail(els))
Chicane(el, dr) == LET o == [el EXCEPT !.sgn = -el.sgn] IN <<el, dr, o, dr, o, dr, el>>
Zero == [ang |-> st.ang, xref |-> 0, um |-> 0, ps |-> <<Q(0,0,0,0,0)>>]
Closes == \A el \in Elements, dr \in Elements :
  (hist = <<>> /\ el.kind = "bend" /\ el.m = 1 /\ dr.kind = "drift") =>
    LET e == Track(Zero, Chicane(el, dr)) IN e.xref = 0 /\ e.ang = 0 /\ OnReference(e.ps[1])
=============================================================================
