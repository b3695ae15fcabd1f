------------------------------ MODULE Handlers ------------------------------
(* What each sensor handler and the IMU handler of msf_updates hand to the
   filter for every message they receive (C18-C21, C25).

   Units: stamps and delays in ms, times handed over in microseconds; positions,
   rates and noises in 1/64; message covariances integers and R in 1/4096;
   rotations are integer quaternions (module Vec), logged as matrix entries in
   ninths; the minimum spacing of poses in half milliseconds. *)
EXTENDS Vec, TLC

None == -1000000000

Diag6(a, b) == [k \in 1..36 |-> LET i == ((k-1) \div 6) + 1  j == ((k-1) % 6) + 1 IN IF i # j THEN 0 ELSE IF i <= 3 THEN a ELSE b]
Diag3(a) == [k \in 1..9 |-> IF (k-1) \div 3 = (k-1) % 3 THEN a ELSE 0]
Blk(c, o) == [i \in 1..3 |-> [j \in 1..3 |-> c[(o+i-1)*6 + o + j]]]
Blocks(a, b) == [k \in 1..36 |-> LET i == ((k-1) \div 6) + 1  j == ((k-1) % 6) + 1
                                 IN IF i <= 3 /\ j <= 3 THEN a[i][j] ELSE IF i > 3 /\ j > 3 THEN b[i-3][j-3] ELSE 0]
Bit(b) == IF b THEN 1 ELSE 0

---------------------------------------------------------------------------
(* Pose. par: [fixed, world, abs, mindt2, mah, thr]; h: [last, got, z, q]. *)
PoseHas(par, kind) == kind \in {"cov", "odo"} \/ par.fixed = 1
PoseAdmits(par, h, o) == PoseHas(par, o.kind) /\ (h.last = None \/ 2 * (o.t - h.last) > par.mindt2 - 2)
PoseZ(par, o) == IF par.world = 1 THEN o.z ELSE Neg(RTv(o.q, o.z))
PoseQ(par, o) == IF par.world = 1 THEN o.q ELSE Conj(o.q)
PoseR(par, noise, o) ==
  IF par.fixed = 1 THEN Diag6(noise.p * noise.p, noise.q * noise.q)
  ELSE LET A == Blk(o.cov, 0)  B == Blk(o.cov, 3)  m == M(o.q)  n == N2(o.q) * N2(o.q)
           rotd(x) == MDiv(MM(MM(T(m), x), m), n)
       IN IF par.world = 1 THEN Blocks(MScale(4096, A), MScale(4096, B))
          ELSE Blocks(MScale(4096, rotd(A)), MScale(4096, rotd(B)))
PoseEvent(par, noise, fix, sid, o) ==
  [k |-> "meas", type |-> "pose", sid |-> sid, abs |-> par.abs, t |-> (o.t - noise.delay) * 1000,
   mah |-> par.mah, thr |-> par.thr, z |-> PoseZ(par, o), q |-> Rot9(PoseQ(par, o)), qn |-> 1000, r66 |-> 1000,
   R |-> PoseR(par, noise, o), ro |-> 0, fx |-> Append(fix, 0)]
PoseNext(par, h, o) == IF PoseAdmits(par, h, o) THEN [last |-> o.t, got |-> TRUE, z |-> PoseZ(par, o), q |-> PoseQ(par, o)] ELSE h
PoseInitH == [last |-> None, got |-> FALSE, z |-> <<0, 0, 0>>, q |-> Id4]

---------------------------------------------------------------------------
(* Position. par: [fixed, abs, mah, thr]; h: [z, ref]. *)
PosCov(o) == IF o.op = "nav" /\ o.ctype > 0 THEN o.cov ELSE [k \in 1..9 |-> 0]
PosAdmits(par, o) == (o.op = "nav" \/ o.kind # "tf" \/ o.seq % 5 = 0) /\ (par.fixed = 1 \/ PosCov(o)[1] # 0)
PosR(par, noise, o) == IF par.fixed = 1 THEN Diag3(noise.p * noise.p) ELSE Scale(4096, PosCov(o))
PosEvent(par, noise, fix, sid, o) ==
  [k |-> "meas", type |-> "position", sid |-> sid, abs |-> par.abs, t |-> (o.t - noise.delay) * 1000,
   mah |-> par.mah, thr |-> par.thr, R |-> PosR(par, noise, o), fx |-> <<fix, 0>>]
\* Geographic fixes: the first one is the origin. Metres per degree differ by less than 1% over the
\* region; mn, me: millimetres per 1000 microdegrees north and east at the site.
NavRef(h, o) == IF h.ref = <<>> THEN <<o.dlat, o.dlon, o.alt>> ELSE h.ref
NavNear(x, want, slack) == Abs(x - want) <= (Abs(want) \div 100) + slack
NavOk(h, o, mm) ==
  LET r == NavRef(h, o)
      e == ((o.dlon - r[2]) * o.me) \div 1000
      n == ((o.dlat - r[1]) * o.mn) \div 1000
  IN /\ NavNear(mm[1], e, 2 + (Abs(n) + Abs(o.alt - r[3])) \div 100)
     /\ NavNear(mm[2], n, 2 + (Abs(e) + Abs(o.alt - r[3])) \div 100)
     /\ Abs(mm[3] - (o.alt - r[3])) <= 1 + (Abs(e) + Abs(n)) \div 500
     /\ (o.dlat = r[1] /\ o.dlon = r[2]) => (Abs(mm[1]) <= 1 /\ Abs(mm[2]) <= 1)
PosInitH == [z |-> <<0, 0, 0>>, ref |-> <<>>]
PosNext(par, h, o) ==
  IF o.op = "nav" THEN [h EXCEPT !.ref = NavRef(h, o), !.z = IF PosAdmits(par, o) THEN <<None, 0, 0>> ELSE @]
  ELSE IF PosAdmits(par, o) THEN [h EXCEPT !.z = o.z] ELSE h

---------------------------------------------------------------------------
(* Pressure. h: [win: the last ten heights used, last]. *)
PressInitH == [win |-> [i \in 1..10 |-> 0], last |-> 0]
PressAdmits(o) == o.seq % 10 = 0
PressEvent(par, noise, sid, o) ==
  [k |-> "meas", type |-> "pressure", sid |-> sid, abs |-> 1, t |-> o.t * 1000, mah |-> par.mah, thr |-> par.thr,
   z |-> <<o.z[3]>>, R |-> <<noise.p * noise.p>>, fx |-> <<>>]
PressNext(h, o) == IF PressAdmits(o) THEN [win |-> [i \in 1..10 |-> IF i < 10 THEN h.win[i+1] ELSE o.z[3]], last |-> o.z[3]] ELSE h
PressSum(h) == h.win[1]+h.win[2]+h.win[3]+h.win[4]+h.win[5]+h.win[6]+h.win[7]+h.win[8]+h.win[9]+h.win[10]

---------------------------------------------------------------------------
(* Spherical. par: [fixed, abs, mah, thr]. *)
SphEvent(par, noise, fix, sid, o) ==
  [k |-> "meas", type |-> IF o.op = "ang" THEN "angle" ELSE "distance", sid |-> sid, abs |-> par.abs,
   t |-> (o.t - noise.delay) * 1000, mah |-> par.mah, thr |-> par.thr,
   z |-> IF o.op = "ang" THEN <<o.z[1], o.z[2]>> ELSE <<o.z[3]>>,
   R |-> IF o.op = "ang" THEN <<noise.p*noise.p, 0, 0, noise.p*noise.p>> ELSE <<noise.p*noise.p>>, fx |-> <<fix, 0>>]

---------------------------------------------------------------------------
(* IMU readings and external states. *)
ImuEvent(o) == [k |-> "imu", t |-> o.t * 1000, seq |-> o.seq, a |-> o.a, w |-> o.w]
ExtFinite(o) == o.mask % 1024 = 0
ExtPropagated(o, playback) == o.flag = 1 /\ ExtFinite(o) /\ ~playback
ExtEvent(o, playback) ==
  [k |-> "ext", t |-> o.t * 1000, seq |-> o.seq, prop |-> Bit(ExtPropagated(o, playback)), a |-> o.a, w |-> o.w]
  @@ (IF ExtFinite(o) THEN [p |-> o.p, v |-> o.v, q |-> [i \in 1..4 |-> (o.q[i] * 5184) \div Root(N2(o.q))]] ELSE [k |-> "ext"])
=============================================================================
