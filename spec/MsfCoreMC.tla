------------------------------ MODULE MsfCoreMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of MsfCore for small numbers of readings and     *)
(* measurements, in every order of arrival.  The declarative invariants    *)
(* state what the incremental algorithm must achieve:                      *)
(*   Chronological  every buffered state is its predecessor propagated,    *)
(*                  plus the corrections of the measurements which belong  *)
(*                  to it, each exactly once, in time order (so the result *)
(*                  does not depend on the order of arrival), and the      *)
(*                  covariance likewise;                                   *)
(*   NoneLost       every accepted measurement is held, buffered or was    *)
(*                  discarded for a stated reason;                         *)
(*   FreshOutput    the output after an update is the newest state and its *)
(*                  covariance is up to date.                              *)
(* TooFar is overridden to keep the times small.                           *)
(***************************************************************************)
EXTENDS MsfCore
CONSTANTS MaxImu, MaxMeas, Steps, Ahead, Kinds
MCTooFar == 7
VARIABLES s, nimu, nmeas, given, out, odd   \* odd: a measurement found no state so far
vars == <<s, nimu, nmeas, given, out, odd>>
Start == [t |-> 100, sens |-> 1, a |-> 1, w |-> 0, z |-> 0, hx |-> 1, x |-> 1, hp |-> 1, px |-> 1, hv |-> 0, v |-> 0,
          hba |-> 0, ba |-> 0, hbw |-> 0, bw |-> 0, hf |-> 0, f |-> 0]
Meas(id, t, kind) == [id |-> id, t |-> t, sid |-> 0, kind |-> 0, gate |-> IF kind = "gated" THEN 1 ELSE 0, thr |-> 0,
                      res |-> IF kind = "gated" THEN 1 ELSE 0, code |-> 7 * id, dv |-> id, dba |-> IF id = 1 THEN 1 ELSE 0, dbw |-> 0,
                      df |-> 0, dth |-> 0]
Init == /\ s = Initialise(NewFilter, Start).s /\ nimu = 0 /\ nmeas = 0 /\ given = {} /\ out = [NoOut EXCEPT !.tag = {"init"}] /\ odd = FALSE
Imu == /\ nimu < MaxImu
       /\ \E d \in Steps : LET r == ProcessIMU(s, [t |-> Last(s.buf).t + d, a |-> 1, w |-> 1, k |-> 0], 0, <<>>) IN
                           s' = r.s /\ out' = r.out
       /\ nimu' = nimu + 1 /\ UNCHANGED <<nmeas, given>>
MeasArrives == /\ nmeas < MaxMeas /\ s.pred
               /\ \E t \in {s.buf[1].t - 2 + 2 * k : k \in 0..((Last(s.buf).t + Ahead - s.buf[1].t + 2) \div 2)} : \E kd \in Kinds :
                    /\ \A m \in given : m.t # t
                    /\ LET m == Meas(nmeas + 1, t, kd)
                           r == AddMeasurement(s, m, <<>>)
                       IN s' = r.s /\ out' = r.out /\ given' = given \union {m}
               /\ nmeas' = nmeas + 1 /\ UNCHANGED nimu
Next == (Imu \/ MeasArrives) /\ odd' = (odd \/ "nostate" \in out'.tag)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Range(q) == {q[i] : i \in DOMAIN q}
InvSorted == SortedBuffers(s)
InvChrono == odd \/ (Chronological(s) /\ EachHasTarget(s))
InvNoneLost == \A m \in given : m \in Range(s.pend) \/ m \in Range(s.meas) \/ m.t < s.buf[1].t
InvHeld == \A m \in Range(s.meas) : m.t <= Last(s.buf).t      \* nothing is applied early
InvFresh == \A i \in DOMAIN out.pub : out.pub[i].k = "upd" =>
               /\ i = Len(out.pub) /\ out.pub[i].s = Last(s.buf)
               /\ s.tP = Last(s.buf).t
InvOnce == \A i, j \in DOMAIN out.app : i # j => out.app[i].m # out.app[j].m
\* a measurement without a suitable state, too old, or ahead of the data changes no state
StateValues(x) == {[y EXCEPT !.px = 0] : y \in Range(x.buf)}
NoEffect == [][(out'.app = <<>> /\ nmeas' = nmeas + 1) => StateValues(s') = StateValues(s)]_vars
\* a measurement that no buffered state can take leaves everything alone; an outlier corrects nothing
InvRejected == ("tooold" \in out.tag \/ "held" \in out.tag) => out.app = <<>> /\ \A i \in DOMAIN out.pub : out.pub[i].k = "prop"
InvGated == \A i \in DOMAIN out.app : (\E m \in given : m.id = out.app[i].m /\ Gated(m)) => out.app[i].a = out.app[i].b
=============================================================================
