------------------------------- MODULE Outputs -------------------------------
(* What the applications publish (C24, C26). States are given exactly: time in ms,
   p, v, bw, ba, wm in 1/64, quaternions q, q1 (world to vision), q2 (imu to
   camera), p1, p2, l, b; covariance P(i,j). Published numbers in 1/5184 (64*81),
   covariances as they are, twist covariances in 1/4096. *)
EXTENDS Managers

OS == 81
V3(v) == Scale(OS, v)
Q4(q) == [i \in 1..4 |-> (q[i] * 5184) \div Root(N2(q))]
PE(st, i, j) == ((IF i < j THEN i ELSE j) * 7 + (IF i < j THEN j ELSE i) * 13 + st.seed) % 50
PBlk(st, i, j) == [a \in 1..3 |-> [b \in 1..3 |-> PE(st, i + a - 1, j + b - 1)]]
NErr(app) == CASE app = 1 -> 28 [] app = 4 -> 29 [] app = 5 -> 31 [] OTHER -> 18
\* four-element parts of a published array that are rotations (equal up to sign)
SameUpTo(x, y, rots) ==
  /\ Len(x) = Len(y)
  /\ \A i \in DOMAIN y : (\A r \in rots : i \notin r..(r+3)) => x[i] = y[i]
  /\ \A r \in rots : SubSeq(x, r, r+3) = SubSeq(y, r, r+3) \/ SubSeq(x, r, r+3) = Neg(SubSeq(y, r, r+3))

Pose7(st) == V3(st.p) \o Q4(st.q)
Core16(st) == V3(st.p) \o V3(st.v) \o Q4(st.q) \o V3(st.bw) \o V3(st.ba)
Pip(app, st) == IF app = 5 THEN << st.l, st.b, st.p1[1] >> ELSE st.p1
Full(app, st) ==
  Core16(st)
  \o (IF HasPose(app) THEN << OS * st.l >> \o Q4(st.q1) \o V3(st.p1) \o Q4(st.q2) \o V3(st.p2) ELSE <<>>)
  \o (IF app = 4 THEN << OS * st.b >> ELSE <<>>)
  \o (IF HasPip(app) THEN V3(Pip(app, st)) ELSE <<>>)
FullRots(app) == IF HasPose(app) THEN {7, 18, 25} ELSE {7}
PoseCov6(st) == [k \in 1..36 |-> LET i == (k-1) \div 6  j == (k-1) % 6
                                 IN PE(st, IF i < 3 THEN i ELSE i + 3, IF j < 3 THEN j ELSE j + 3)]

(* body velocity, in 1/64 (v is a multiple of the squared norm) *)
Vb(st) == RTv(st.q, st.v)
Twist(st) == V3(Vb(st)) \o V3(Sub(st.wm, st.bw))
TwistExact(st) == N2(st.q) \in {1, 4}
TwistLin(st) ==
  LET n == N2(st.q)  Mt == T(M(st.q))  S == Skew(Vb(st))
      vv == MM(MM(Mt, PBlk(st, 3, 3)), M(st.q))
      vq == MM(MM(Mt, PBlk(st, 3, 6)), T(S))
      qv == MM(MM(S, PBlk(st, 6, 3)), M(st.q))
      qq == MM(MM(S, PBlk(st, 6, 6)), T(S))
  IN [i \in 1..3 |-> [j \in 1..3 |-> (4096 \div (n * n)) * vv[i][j] + (64 \div n) * vq[i][j] + (64 \div n) * qv[i][j] + qq[i][j]]]
TwistAng(st) == LET w == PBlk(st, 9, 9) IN [i \in 1..3 |-> [j \in 1..3 |-> 4096 * w[i][j] + (IF i = j THEN st.ng * st.ng ELSE 0)]]
TwistCov(st) == Blocks(TwistLin(st), TwistAng(st))

Mat(st, r0, r1, c0, c1) == LET w == c1 - c0 IN [k \in 1..(r1-r0)*w |-> PE(st, r0 + ((k-1) \div w), c0 + ((k-1) % w))]

---------------------------------------------------------------------------
Heard(ls, t) == t \in DOMAIN ls /\ ls[t] > 0
Hd(st) == st.t * 1000
\* correction of an external propagation, and its flag
Correction(s, st) ==
  LET e == s.ext[1]
      dq == QMul(Conj(e.q), st.q)
  IN V3(Sub(st.p, e.p)) \o V3(Sub(st.v, e.v))
     \o [i \in 1..4 |-> (dq[i] * 5184) \div (Root(N2(e.q)) * Root(N2(st.q)) * e.qs)]
     \o V3(Sub(st.bw, e.bw)) \o V3(Sub(st.ba, e.ba))
Playback16 == [i \in 1..16 |-> IF i = 7 THEN 5184 ELSE 0]
FlagInit == 2
FlagCorr == 3

Finite(st) == st.bad = 0
Topics == {"msf_core/state_out", "msf_core/correction", "msf_core/pose", "msf_core/odometry", "msf_core/pose_after_update",
           "msf_core/ext_state", "msf_core/cov_core", "msf_core/cov_aux", "msf_core/cov_core_aux"}
ExpectTopics(c, ls, o) ==
  CASE o.op = "pinit" -> {"msf_core/correction"}
    [] o.op = "pprop" -> IF \E t \in {"msf_core/pose", "msf_core/odometry", "msf_core/ext_state"} : Heard(ls, t)
                         THEN {"msf_core/pose", "msf_core/odometry", "msf_core/ext_state"} ELSE {}
    [] OTHER -> {"msf_core/state_out"}
                \union {t \in {"msf_core/pose_after_update", "msf_core/cov_core", "msf_core/cov_aux", "msf_core/cov_core_aux"} : Heard(ls, t)}
                \union (IF Heard(ls, "msf_core/correction") /\ Finite(o.st) THEN {"msf_core/correction"} ELSE {})
Frame(c) == c.frame
PubOk(c, s, o, e) ==
  LET st == o.st  app == c.app IN
  CASE e.topic = "msf_core/correction" /\ o.op = "pinit" ->
         e.h.t = Hd(st) /\ e.im = 0 /\ e.flag = FlagInit /\ (Finite(st) => SameUpTo(e.d, Core16(st), {7}))
    [] e.topic = "msf_core/correction" ->
         /\ e.h.t = Hd(st) /\ e.im = 0
         /\ IF c.playback = 1 THEN e.flag = FlagInit /\ e.d = Playback16
            ELSE e.flag = FlagCorr /\ (s.ext # <<>> /\ s.ext[1].mask = 0 => SameUpTo(e.d, Correction(s, st), {7}))
    [] e.topic = "msf_core/state_out" -> e.h.t = Hd(st) /\ (Finite(st) => SameUpTo(e.d, Full(app, st), FullRots(app)))
    [] e.topic = "msf_core/pose" -> e.h.t = Hd(st) /\ e.h.f = Frame(c) /\ (Finite(st) => SameUpTo(e.d, Pose7(st), {4})) /\ e.c = PoseCov6(st)
    [] e.topic = "msf_core/pose_after_update" -> e.h.t = Hd(st) /\ e.h.f = Frame(c) /\ (Finite(st) => SameUpTo(e.d, Pose7(st), {4})) /\ e.c = PoseCov6(st)
    [] e.topic = "msf_core/odometry" ->
         /\ e.h.t = Hd(st) /\ e.h.f = Frame(c) /\ e.child = c.child
         /\ Finite(st) => (SameUpTo(e.d, Pose7(st), {4}) /\ e.tw = Twist(st) /\ (TwistExact(st) => e.tc = TwistCov(st)))
         /\ e.c = PoseCov6(st)
    [] e.topic = "msf_core/ext_state" -> e.h.t = Hd(st) /\ e.h.f = Frame(c) /\ (Finite(st) => (SameUpTo(e.d, Pose7(st), {4}) /\ e.v = V3(st.v)))
    [] e.topic = "msf_core/cov_core" -> e.h.t = Hd(st) /\ e.rows = 15 /\ e.cols = 15 /\ e.d = Mat(st, 0, 15, 0, 15)
    [] e.topic = "msf_core/cov_aux" -> e.h.t = Hd(st) /\ e.rows = NErr(app) - 15 /\ e.cols = NErr(app) - 15 /\ e.d = Mat(st, 15, NErr(app), 15, NErr(app))
    [] e.topic = "msf_core/cov_core_aux" -> e.h.t = Hd(st) /\ e.rows = 15 /\ e.cols = NErr(app) - 15 /\ e.d = Mat(st, 0, 15, 15, NErr(app))
    [] OTHER -> FALSE
TfOk(c, s, o, e) ==
  e.t = s.now * 1000 /\ e.f = Frame(c) /\ e.c = c.target /\ (Finite(o.st) => SameUpTo(e.d, Pose7(o.st), {4}))
=============================================================================
