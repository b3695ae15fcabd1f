----------------------------- MODULE MeasModels -----------------------------
(* What every sensor hands to the Kalman update when it is applied to a state:
   the residual (reading minus predicted reading), the Jacobian of the predicted
   reading with respect to the error state, block by block, and the noise.

   Attitude errors are right-multiplied small rotations, everything else is
   additive, so the derivative of C(q) x is -C(q) [x]x.

   Units: positions, scale, pressure bias in 1/8; the position p in 1/pu.
   Rotations are integer quaternions. A Jacobian or residual row is multiplied by
   a scale that makes it an integer; kp, ka below are those scales.

   Pose      z = C_wv (p - p_wv + C p_ic) L,   z_q = q_wv q q_ic
   Position  z = p + C p_ip
   Pressure  z = p_z - b_p
   Angles    of u = p + C p_ip: acos(u_z / |u|), atan2(u_y, u_x);  distance |u| *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Vec

Zero(n, m) == [i \in 1..n |-> [j \in 1..m |-> 0]]
Width(x) == IF x \in {"L", "bp"} THEN 1 ELSE 3
Stack(x, y, z) == x \o y \o z          \* rows of three blocks
Column(v) == [i \in 1..Len(v) |-> <<v[i]>>]
\* a Jacobian is a function from block names to matrices; blocks not named are zero
Full(H, names, rows) == TLCEval([x \in names |-> IF x \in DOMAIN H THEN H[x] ELSE Zero(rows, Width(x))])
Fix(H, F) == TLCEval([x \in DOMAIN H |-> IF x \in F THEN [i \in 1..Len(H[x]) |-> [j \in 1..Len(H[x][i]) |-> 0]] ELSE H[x]])
Minus1(H) == TLCEval([x \in DOMAIN H |-> [i \in 1..Len(H[x]) |-> [j \in 1..Len(H[x][i]) |-> -H[x][i][j]]]])

\* ---------------------------------------------------------------------- pose
\* p - p_wv + C p_ic, in 1/(8 N2(q))
Arm(s) == TLCEval(Add(Scale(N2(s.q), Sub(s.p, s.pwv)), MV(M(s.q), s.pic)))
PosePoint(s, kp) == Scale((kp \div (64 * N2(s.q) * N2(s.qwv))) * s.L, MV(M(s.qwv), Arm(s)))        \* times kp
CamAttitude(s) == QMul(QMul(s.qwv, s.q), s.qic)
PoseJacobian(s, kp, ka) ==
  LET n == N2(s.q)  nw == N2(s.qwv)  ni == N2(s.qic)
      f == kp \div (64 * n * nw)  g == ka \div (n * ni)
      Cw == MScale(f, M(s.qwv))  C == M(s.q)  Ci == MScale(g, T(M(s.qic)))
      u == Arm(s)
      rows(pos, att) == Stack(pos, att, Zero(1, Len(pos[1])))
      Z == Zero(3, 3)
  IN [p   |-> rows(MScale(8 * n * s.L, Cw), Z),
      q   |-> rows(MScale(-s.L, MM(MM(Cw, C), Skew(s.pic))), MScale(n, Ci)),
      L   |-> rows(Column(Scale(8, MV(Cw, u))), Zero(3, 1)),
      qwv |-> rows(MScale(-s.L, MM(Cw, Skew(u))), MM(Ci, T(C))),
      pwv |-> rows(MScale(-8 * n * s.L, Cw), Z),
      qic |-> rows(Z, MScale(g * n * ni, << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>)),
      pic |-> rows(MScale(8 * s.L, MM(Cw, C)), Z)]
\* residual: position times kp, attitude as twice the vector part times its scalar part, last row unused
Twice(e) == << <<2 * e[2]>>, <<2 * e[3]>>, <<2 * e[4]>> >>
AttError(s, zq) == QMul(Conj(CamAttitude(s)), zq)
PoseResidual(s, z, zq, kp) ==
  Stack(Column(Sub(Scale(kp \div 8, z), PosePoint(s, kp))), Twice(AttError(s, zq)), << <<0>> >>)
\* relative: the change of the reading against the change of the state
RelAttError(so, sn, zqo, zqn) == QMul(QMul(Conj(CamAttitude(sn)), CamAttitude(so)), QMul(Conj(zqo), zqn))
RelPoseResidual(so, sn, zo, zn, zqo, zqn, kp) ==
  Stack(Column(Sub(Scale(kp \div 8, Sub(zn, zo)), Sub(PosePoint(sn, kp), PosePoint(so, kp)))), Twice(RelAttError(so, sn, zqo, zqn)), << <<0>> >>)

\* ---------------------------------------------------------- position, pressure
PosJacobian(s) == LET n == N2(s.q) IN     \* times 8 n
  [p |-> MScale(8 * n, << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>), q |-> MScale(-1, MM(M(s.q), Skew(s.pip))), pip |-> MScale(8, M(s.q))]
PosResidual(s, z) == LET n == N2(s.q) IN Column(Sub(Scale(n, z), Add(Scale(n, s.p), MV(M(s.q), s.pip))))
PressJacobian == [p |-> << <<0, 0, 1>> >>, bp |-> << <<-1>> >>]
PressResidual(s, z) == << <<z[3] + s.bp - s.p[3]>> >>

\* ---------------------------------------------------------------- spherical
\* p is given in 1/(8 n), such that u = p + C p_ip is an integer in 1/8
Target(s) == LET n == N2(s.q)  x == TLCEval(Add(s.p, MV(M(s.q), s.pip))) IN DivV(x, n)
TargetOk(s) == LET n == N2(s.q)  x == TLCEval(Add(s.p, MV(M(s.q), s.pip))) IN \A i \in 1..3 : x[i] % n = 0
RowOf(g, s) == LET n == N2(s.q)  gM == TLCEval(MV(T(M(s.q)), g)) IN       \* g C and g C [p_ip]
  [p |-> Scale(8 * n, g), q |-> Neg(MV(T(Skew(s.pip)), gM)), pip |-> Scale(8, gM)]
AngleJacobian(s) ==
  LET u == Target(s)  rho2 == u[1] * u[1] + u[2] * u[2]
      a == RowOf(<<u[1] * u[3], u[2] * u[3], -rho2>>, s)  b == RowOf(<<-u[2], u[1], 0>>, s)
  IN [p |-> <<a.p, b.p>>, q |-> <<a.q, b.q>>, pip |-> <<a.pip, b.pip>>]
DistJacobian(s) == LET a == RowOf(Target(s), s) IN [p |-> <<a.p>>, q |-> <<a.q>>, pip |-> <<a.pip>>]

\* -------------------------------------------------------------------- noise
\* in 1/64; the noise parameters in 1/8
CovEntry(seed, i, k) == LET lo == IF i < k THEN i ELSE k  hi == IF i < k THEN k ELSE i
                        IN ((lo * 5 + hi * 11 + seed) % 32) + (IF i = k THEN 256 ELSE 0)
Given(n, seed) == [i \in 1..n |-> [k \in 1..n |-> CovEntry(seed, i - 1, k - 1)]]
Diag(v) == [i \in 1..Len(v) |-> [k \in 1..Len(v) |-> IF i = k THEN v[i] * v[i] ELSE 0]]
PoseNoise(o) == IF o.fc = 1 THEN Diag(<<o.n1, o.n1, o.n1, o.n2, o.n2, o.n2>>)
                ELSE [i \in 1..6 |-> [k \in 1..6 |-> IF (i <= 3) = (k <= 3) THEN CovEntry(o.cs, i - 1, k - 1) ELSE 0]]
NoiseOf(o) == CASE o.op = "pose" -> PoseNoise(o)
                [] o.op = "position" -> IF o.fc = 1 THEN Diag(<<o.n1, o.n1, o.n1>>) ELSE Given(3, o.cs)
                [] o.op = "angle" -> Diag(<<o.n1, o.n1>>)
                [] OTHER -> Diag(<<o.n1>>)

\* pairs of blocks whose covariance is cleared because one of them is fixed
Cleared(names, F) == {<<x, y>> \in names \X names : x # y /\ (x \in F \/ y \in F)}
=============================================================================
