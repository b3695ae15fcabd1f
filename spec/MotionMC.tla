------------------------------- MODULE MotionMC -------------------------------
(***************************************************************************)
(* Checks the step relation of Motion itself: walks of a few steps with    *)
(* readings from a small set, computed with Ideal.  Every computed step is *)
(* accepted; turning the whole scene about the vertical changes nothing    *)
(* but the scene; and the usual mistakes are not accepted wherever they    *)
(* make a difference: one-sided position or velocity, old attitude for     *)
(* both readings, only the newest rate, the coning term with the wrong     *)
(* sign, a bias that is not subtracted.                                    *)
(***************************************************************************)
EXTENDS Motion, TLC
CONSTANTS Depth, Dts
VARIABLES s, r, k, prev
vars == <<s, r, k, prev>>
Accs == {<<0, 0, 2511>>, <<1500, -700, 2000>>, <<-300, 2600, -900>>}
Rates == {<<0, 0, 0>>, <<1200, 0, -600>>, <<-500, 1200, 300>>}
Atts == {<<16384, 0, 0, 0>>, <<8192, 8192, -8192, 8192>>, <<0, 9830, 13107, 0>>}
ba0 == <<100, -50, 80>>
bw0 == <<40, -30, 20>>
Start(q) == [t |-> 0, am |-> <<0, 0, 2511>>, wm |-> <<700, -700, 200>>, p |-> <<0, 0, 0>>, v |-> <<65536, -32768, 100000>>, q |-> q, nn |-> 0, ba |-> ba0, bw |-> bw0, x |-> 3]
\* the scene turned by 90 degrees about the vertical
TurnV(x) == <<-x[2], x[1], x[3]>>
TurnQ(q) == QMul(<<11585, 0, 0, 11585>>, q)
TurnS(o) == [o EXCEPT !.p = TurnV(@), !.v = TurnV(@), !.q = TurnQ(@)]
Init == \E q \in Atts : s = Start(q) /\ r = TurnS(Start(q)) /\ k = 0 /\ prev = Start(q)
Next == /\ k < Depth
        /\ \E a \in Accs, w \in Rates, dt \in Dts :
             LET n == [s EXCEPT !.t = @ + dt, !.am = a, !.wm = w] IN
             /\ s' = TLCEval(Ideal(s, n)) /\ prev' = s
             /\ r' = TLCEval(Ideal(r, [r EXCEPT !.t = @ + dt, !.am = a, !.wm = w]))
        /\ k' = k + 1
Spec == Init /\ [][Next]_vars
Accepted == k > 0 => (Moderate(prev, s) => StepDiffers(prev, s) = {})
Near(a, b, tol) == \A i \in 1..3 : Abs(a[i] - b[i]) <= tol
Equivariant == LET e == TurnS(s) IN /\ Near(e.v, r.v, 400 * (k + 1)) /\ Near(e.p, r.p, 6000 * (k + 1)) /\ Max3(Apart(e.q, r.q)) <= 3 * (k + 1)
\* the usual mistakes
OneSidedP(o, n) == [n EXCEPT !.p = [i \in 1..3 |-> o.p[i] + Rnd(2 * o.v[i] * (n.t - o.t), 128)]]
OldAtt(o, n) == LET m == MeanAcc(o, [n EXCEPT !.q = o.q]) IN [n EXCEPT !.v = [i \in 1..3 |-> o.v[i] + Rnd(m[i] * (n.t - o.t), 256)]]
NewRate(o, n) == LET f == Ideal([o EXCEPT !.wm = n.wm], n) IN [n EXCEPT !.q = f.q]
Swapped(o, n) == LET f == Ideal([o EXCEPT !.wm = n.wm], [n EXCEPT !.wm = o.wm]) IN [n EXCEPT !.q = f.q]
NoBias(o, n) == LET z == <<0, 0, 0>> f == Ideal([o EXCEPT !.ba = z], [n EXCEPT !.ba = z]) IN [n EXCEPT !.v = f.v]
Changed(n, f) == Max3(Minus(n.v, f.v)) > 3000 \/ Max3(Minus(n.p, f.p)) > 600 \/ Max3(Apart(n.q, f.q)) > 40
Mistakes == k > 0 => \A f \in {OneSidedP(prev, s), OldAtt(prev, s), NewRate(prev, s), Swapped(prev, s), NoBias(prev, s)} :
              Changed(s, f) /\ Moderate(prev, s) => StepDiffers(prev, f) # {}
\* a reading on the line between two others is accepted, one that is not is rejected
Line == k > 0 /\ (s.t - prev.t) > 12 =>
          LET w == s.t - prev.t
              Mid(a, b) == [i \in 1..3 |-> a[i] + Rnd((b[i] - a[i]) * 10, w)]
              m == [s EXCEPT !.t = prev.t + 10, !.am = Mid(prev.am, s.am), !.wm = Mid(prev.wm, s.wm)]
              z == [m EXCEPT !.am = Mid(s.am, prev.am)]
          IN OnLine(prev, m, s) /\ (Max3(Minus(m.am, z.am)) > 3 => ~OnLine(prev, z, s))
=============================================================================
