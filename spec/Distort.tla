------------------------------- MODULE Distort -------------------------------
(* Simulated degradation of a sensor. A distorter drifts: with rates per second it
   accumulates an offset, a scale and a rotation over the time that passes between
   readings. The distortion node lets messages of a kind through while that kind is
   enabled. Units: rates and times 1/8, drift and scale 1/64, positions whole. *)
EXTENDS Vec, FiniteSets
NewDistorter(c) == [cfg |-> c, pos |-> <<0, 0, 0>>, scale |-> 64, att |-> Id4]
\* a quaternion without the factors of two common to all entries: the same rotation
RECURSIVE Prim(_)
Prim(q) == IF \A i \in 1..4 : q[i] % 2 = 0 THEN Prim(<<q[1] \div 2, q[2] \div 2, q[3] \div 2, q[4] \div 2>>) ELSE q
\* the rotations used: half the rotation vector is 1/2 or 1 on all axes, either way a third of a turn about a diagonal
Turnable(th) == th = <<0, 0, 0>> \/ \E k \in {64, 128} : \A i \in 1..3 : Abs(th[i]) = k
Turn(th) == <<1, th[1] \div Abs(th[1]), th[2] \div Abs(th[2]), th[3] \div Abs(th[3])>>
DriftPos(d, dt) == [d EXCEPT !.pos = Add(@, Scale(dt, d.cfg.pos)), !.scale = @ + dt * d.cfg.scale]
DriftAtt(d, dt) == [d EXCEPT !.att = IF dt = 0 \/ d.cfg.att = <<0, 0, 0>> THEN @ ELSE Prim(QMul(@, Turn(Scale(dt, d.cfg.att))))]
\* in 1/4096
OutPos(d, p) == Scale(d.scale, Add(Scale(64, p), d.pos))
OutAtt(d, q) == QMul(q, d.att)
------------------------------------------------------------------------------
\* a handler: its distorter drifts over the time since its previous reading, none before the first
NewHandler(c) == [d |-> NewDistorter(c), last |-> -1]
DriftHandler(h, t) == [d |-> IF h.last = -1 THEN h.d ELSE DriftAtt(DriftPos(h.d, t - h.last), t - h.last), last |-> t]
Reading(h, p) == IF h.last = -1 THEN Scale(4096, p) ELSE OutPos(h.d, p)
------------------------------------------------------------------------------
\* the node
PoseKinds == {"cov", "tf", "ps"}
PlaceKinds == {"nav", "pt"}
Topic(k) == CASE k = "cov" -> "pose_with_covariance" [] k = "tf" -> "transform" [] k = "ps" -> "pose" [] k = "nav" -> "navsatfix" [] OTHER -> "point"
Lets(conf, k) == (k \in PoseKinds /\ conf.pose = 1) \/ (k \in PlaceKinds /\ conf.place = 1)
Through(conf, k, x) == IF Lets(conf, k) THEN << [topic |-> "msf_distort/" \o Topic(k) \o "_output", x |-> x] >> ELSE <<>>
=============================================================================
