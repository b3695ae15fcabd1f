------------------------------ MODULE Managers ------------------------------
(* The managers of msf_updates: (re-)initialisation of the filter (C22), process
   noise of the sensor states (C30), scale sanity check (C23), and what every
   operation hands to the filter, over the handlers of module Handlers.

   Applications: 1 pose, 2 position, 3 spherical, 4 pose_pressure, 5 position_pose.
   Constant description c of a behaviour: [app, par: handler parameters,
   pic, qic, pip, playback, second]. Scales and heights in 1/1024. *)
EXTENDS Handlers

HasPose(app) == app \in {1, 4, 5}
HasPosition(app) == app \in {2, 5}
HasPip(app) == app \in {2, 3, 5}

NoNoise == [p |-> 0, q |-> 0, delay |-> 0]
NewApp == [now |-> 0, cfg |-> [set |-> 0], h |-> PoseInitH, h2 |-> PoseInitH, g |-> PosInitH, g2 |-> PosInitH,
           pr |-> PressInitH, ang |-> <<0, 0>>, dist |-> 0, n2 |-> NoNoise, m2 |-> NoNoise, ext |-> <<>>]

---------------------------------------------------------------------------
(* C22 *)
YawQ(y) == CASE y = 0 -> Id4 [] y = 90 -> <<1, 0, 0, 1>> [] y = 180 -> <<0, 0, 0, 1>> [] y = -180 -> <<0, 0, 0, -1>> [] OTHER -> <<1, 0, 0, -1>>
\* sine and cosine of multiples of a right angle
Sin4(k) == << 0, 1, 0, -1 >>[(k % 4) + 1]
Cos4(k) == << 1, 0, -1, 0 >>[(k % 4) + 1]
OverScale(v, sc) == [i \in 1..3 |-> (v[i] * 1024) \div sc]
Zero3 == <<0, 0, 0>>
InitCore(s, p, q) ==
  [k |-> "init", t |-> s.now * 1000, p |-> p, v |-> Zero3, q |-> Rot9(q), bw |-> Zero3, ba |-> Zero3, wm |-> Zero3,
   am |-> SubSeq(Rot9(q), 7, 9), qn |-> 1, pok |-> 1]
InitPoseQ(c, s) == IF s.h.got THEN QMul(s.h.q, Conj(c.qic)) ELSE Id4
InitPoseP(c, s, sc) == Sub(OverScale(s.h.z, sc), Rv(InitPoseQ(c, s), c.pic))
Ic(c) == [qic |-> Rot9(c.qic), pic |-> c.pic]
InitEvent(c, s, sc) ==
  CASE c.app \in {1, 4} ->
         InitCore(s, InitPoseP(c, s, sc), InitPoseQ(c, s))
           @@ [L |-> sc, qwv |-> Rot9(Id4), pwv |-> Zero3] @@ Ic(c)
           @@ (IF c.app = 4 THEN [bp |-> << ((s.h.z[3] * 1024) \div sc) - s.pr.last >>] ELSE [k |-> "init"])
    [] c.app = 5 ->
         LET qy == YawQ(s.cfg.yaw)
             wv == QMul(QMul(s.h.q, Conj(c.qic)), Conj(qy))      \* R_wv
             p == Sub(s.g.z, Rv(qy, c.pip))
             vis == Sub(RTv(wv, OverScale(s.h.z, sc)), Rv(qy, c.pic))
         IN InitCore(s, p, qy) @@ [L |-> sc, qwv |-> Rot9(wv), pwv |-> Sub(p, vis), pip |-> c.pip] @@ Ic(c)
    [] OTHER ->
         LET qy == YawQ(s.cfg.yaw)
             z == IF c.app = 2 THEN s.g.z
                  ELSE << s.dist * Sin4(s.ang[1]) * Cos4(s.ang[2]), s.dist * Sin4(s.ang[1]) * Sin4(s.ang[2]), s.dist * Cos4(s.ang[1]) >>
         IN InitCore(s, Sub(z, Rv(qy, c.pip)), qy) @@ [pip |-> c.pip]
\* the scale that makes the last height reading equal to the given height
HeightScale(s, h) == (s.h.z[3] * 16384) \div h
HeightOk(s) == s.h.z # Zero3
CfgInits(c, s, cfg) ==
  LET s1 == [s EXCEPT !.cfg = cfg]
  IN (IF cfg.init = 1 THEN << InitEvent(c, s1, IF HasPose(c.app) THEN cfg.scale ELSE 1024) >> ELSE <<>>)
     \o (IF cfg.seth = 1 /\ HasPose(c.app) /\ HeightOk(s) THEN << InitEvent(c, s1, HeightScale(s, cfg.height)) >> ELSE <<>>)
ServiceRet(c, s, o) ==
  IF c.app # 1 THEN -1
  ELSE IF o.op = "scale" THEN 1
  ELSE Bit(HeightOk(s) /\ 100 * Abs(o.v) > 1024)

---------------------------------------------------------------------------
(* C30: dt in 1/1024 s, noises in 1/64: dt n^2 in 1/4194304, on every diagonal entry *)
QBlk(dt, n, len) == IF len = 1 THEN << dt * n * n >> ELSE Diag3(dt * n * n)
QAux(c, s, dt) ==
  LET z == s.cfg.nz IN
  (IF HasPose(c.app) THEN << QBlk(dt, z.L, 1), QBlk(dt, z.qwv, 3), QBlk(dt, z.pwv, 3), QBlk(dt, z.qic, 3), QBlk(dt, z.pic, 3) >> ELSE <<>>)
  \o (IF c.app = 4 THEN << QBlk(dt, z.bp, 1) >> ELSE <<>>)
  \o (IF HasPip(c.app) THEN << QBlk(dt, z.pip, 3) >> ELSE <<>>)

(* C23: a negative scale becomes 0.1, any other scale is left alone (result in 1/10240) *)
Sane(L) == IF L < 0 THEN 1024 ELSE 10 * L

---------------------------------------------------------------------------
(* Sensor identifiers: the built-in handlers first, in the order they are added. *)
SidPos(c) == IF c.app = 5 THEN 1 ELSE 0
SidPress == 1
SidSecondPose(c) == IF c.app = 1 THEN 1 ELSE 2
SidSecondPos(c) == CASE c.app = 2 -> 1 [] c.second = 1 -> 3 [] OTHER -> 2

(* Events handed to the filter core by an operation *)
Expect(c, s, o) ==
  CASE o.op = "pose" ->
         LET par == IF o.hd = 0 THEN c.par.pose ELSE c.par.pose2
             h == IF o.hd = 0 THEN s.h ELSE s.h2
         IN IF PoseAdmits(par, h, o)
            THEN << PoseEvent(par, IF o.hd = 0 THEN s.cfg.pose ELSE s.n2, s.cfg.fx, IF o.hd = 0 THEN 0 ELSE SidSecondPose(c), o) >>
            ELSE <<>>
    [] o.op \in {"pos", "nav"} ->
         LET par == IF o.hd = 0 THEN c.par.pos ELSE c.par.pos2
             e == PosEvent(par, IF o.hd = 0 THEN s.cfg.posn ELSE s.m2, s.cfg.fxp, IF o.hd = 0 THEN SidPos(c) ELSE SidSecondPos(c), o)
         IN IF PosAdmits(par, o) THEN << IF o.op = "pos" THEN e @@ [z |-> o.z] ELSE e >> ELSE <<>>
    [] o.op = "press" -> IF PressAdmits(o) THEN << PressEvent(c.par.press, s.cfg.press, SidPress, o) >> ELSE <<>>
    [] o.op \in {"ang", "dist"} ->
         LET n == IF o.op = "ang" THEN s.cfg.ang ELSE s.cfg.dist IN
         IF c.par.sph.fixed = 1 THEN << SphEvent(c.par.sph, n, s.cfg.fxp, IF o.op = "ang" THEN 0 ELSE 1, o) >> ELSE <<>>
    [] o.op = "angq" ->       \* an angle of whole right angles, for exact initial positions
         IF c.par.sph.fixed = 1 THEN << [k |-> "meas", type |-> "angle", sid |-> 0, t |-> (o.t - s.cfg.ang.delay) * 1000] >> ELSE <<>>
    [] o.op = "imu" -> << ImuEvent(o) >>
    [] o.op = "ext" -> << ExtEvent(o, c.playback = 1) >>
    [] o.op = "cfg" -> CfgInits(c, s, o.cfg)
    [] o.op = "scale" -> IF c.app = 1 THEN << InitEvent(c, s, o.v) >> ELSE <<>>
    [] o.op = "height" -> IF ServiceRet(c, s, o) = 1 THEN << InitEvent(c, s, HeightScale(s, o.v)) >> ELSE <<>>
    [] OTHER -> <<>>
Next1(c, s, o) ==
  CASE o.op = "now" -> [s EXCEPT !.now = o.t]
    [] o.op = "pose" -> IF o.hd = 0 THEN [s EXCEPT !.h = PoseNext(c.par.pose, @, o)] ELSE [s EXCEPT !.h2 = PoseNext(c.par.pose2, @, o)]
    [] o.op \in {"pos", "nav"} -> IF o.hd = 0 THEN [s EXCEPT !.g = PosNext(c.par.pos, @, o)] ELSE [s EXCEPT !.g2 = PosNext(c.par.pos2, @, o)]
    [] o.op = "press" -> [s EXCEPT !.pr = PressNext(@, o)]
    [] o.op = "angq" -> IF c.par.sph.fixed = 1 THEN [s EXCEPT !.ang = o.quarter] ELSE s
    [] o.op = "dist" -> IF c.par.sph.fixed = 1 THEN [s EXCEPT !.dist = o.z[3]] ELSE s
    [] o.op = "ext" -> [s EXCEPT !.ext = << o >>]
    [] o.op = "cfg" -> [s EXCEPT !.cfg = o.cfg]
    [] o.op = "noises" -> [s EXCEPT !.n2 = [p |-> o.p, q |-> o.q, delay |-> o.delay]]
    [] o.op = "noisep" -> [s EXCEPT !.m2 = [p |-> o.p, q |-> 0, delay |-> o.delay]]
    [] OTHER -> s
=============================================================================
