------------------------------ MODULE DistortMC ------------------------------
(* However readings are spaced, the drift is the rate times the time since the first
   of them, and rotations stay among the 24 that the used turns generate. *)
EXTENDS Distort
CONSTANTS Steps, Rates, Scales, Turns, MaxTime
VARIABLES h, t, first, n
vars == <<h, t, first, n>>
RatesV == {<<0, 0, 0>>, <<1, -2, 3>>}
ScalesV == {0, 1, -2}
TurnsV == {<<0, 0, 0>>, <<64, -64, 64>>, <<128, 128, 128>>, <<-64, -64, 64>>}
Init == /\ \E p \in Rates, s \in Scales : h = NewHandler([pos |-> p, att |-> <<0, 0, 0>>, scale |-> s])
        /\ t = 0 /\ first = -1 /\ n = 0
Read == \E dt \in Steps : /\ t + dt <= MaxTime /\ t' = t + dt /\ h' = DriftHandler(h, t + dt)
                           /\ first' = (IF first = -1 THEN t + dt ELSE first) /\ n' = n
\* one more second-long turn of the attitude alone
Spin == \E th \in Turns : n < 4 /\ h' = [h EXCEPT !.d = [DriftAtt([@ EXCEPT !.cfg.att = th], 1) EXCEPT !.cfg = h.d.cfg]] /\ n' = n + 1 /\ UNCHANGED <<t, first>>
Spec == Init /\ [][Read \/ Spin]_vars
DriftOk == LET e == IF first = -1 THEN 0 ELSE t - first
           IN h.d.pos = Scale(e, h.d.cfg.pos) /\ h.d.scale = 64 + e * h.d.cfg.scale
UndistortedFirst == h.last = -1 => Reading(h, <<3, 5, 7>>) = Scale(4096, <<3, 5, 7>>)
RotationOk == N2(h.d.att) \in {1, 4} /\ \E i \in 1..4 : h.d.att[i] % 2 # 0
TypeOk == \A th \in Turns : Turnable(th)
GateOk == \A c \in {[pose |-> a, place |-> x] : a \in {0, 1}, x \in {0, 1}} : \A k \in PoseKinds \union PlaceKinds :
            Through(c, k, 7) = <<>> <=> ~((k \in PoseKinds /\ c.pose = 1) \/ (k \in PlaceKinds /\ c.place = 1))
DistinctTopics == \A k \in PoseKinds \union PlaceKinds : \A m \in PoseKinds \union PlaceKinds : Topic(k) = Topic(m) => k = m
Inv == DriftOk /\ UndistortedFirst /\ RotationOk /\ TypeOk /\ GateOk /\ DistinctTopics
=============================================================================
