-------------------------------- MODULE Motion --------------------------------
(***************************************************************************)
(* Dead reckoning in three dimensions, for any attitude and any rotation   *)
(* rate (MsfCore has the bookkeeping, exactly, for motion about one axis). *)
(* One step leads from a state o to the state n whose readings are known.  *)
(*   velocity   changes by the mean of both bias-corrected accelerations,  *)
(*              each turned by the attitude of its own state, less gravity *)
(*   position   changes by the mean of both velocities                     *)
(*   attitude   turns by the mean bias-corrected rate plus the coning term *)
(*              dt^2/12 (rate before x rate now): the rate changes         *)
(*              linearly in between                                        *)
(*   everything else is carried over.                                      *)
(* Units: t 2^-10 s; am, ba 2^-8 m/s2; wm, bw 2^-10 rad/s; v 2^-16 m/s;    *)
(* p 2^-20 m; q 2^-14.  Values are rounded to these units, so a step is    *)
(* judged with the tolerance the rounding calls for (below 1 cm/s2 of      *)
(* acceleration, 3e-4 rad and a few micrometres).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
Abs(a) == IF a < 0 THEN -a ELSE a
Gravity14 == <<0, 0, 160727>>      \* 9.81 m/s2 in 2^-14
One == 16384
Max3(x) == LET a == Abs(x[1]) b == Abs(x[2]) c == Abs(x[3]) IN IF a >= b /\ a >= c THEN a ELSE IF b >= c THEN b ELSE c
Rnd(x, d) == (x + d \div 2) \div d
Plus(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
Minus(x, y) == <<x[1] - y[1], x[2] - y[2], x[3] - y[3]>>
DotRow(r, x) == r[1] * x[1] + r[2] * x[2] + r[3] * x[3]
Cross(x, y) == <<x[2] * y[3] - x[3] * y[2], x[3] * y[1] - x[1] * y[3], x[1] * y[2] - x[2] * y[1]>>
\* q: <<w, x, y, z>>
Rotation(q) ==
  LET w == q[1] x == q[2] y == q[3] z == q[4]
      S(a) == Rnd(a, 8192)
  IN <<<<One - S(y * y + z * z), S(x * y - w * z), S(x * z + w * y)>>,
       <<S(x * y + w * z), One - S(x * x + z * z), S(y * z - w * x)>>,
       <<S(x * z - w * y), S(y * z + w * x), One - S(x * x + y * y)>>>>
Turn(q, e) == LET r == Rotation(q) IN <<DotRow(r[1], e), DotRow(r[2], e), DotRow(r[3], e)>>   \* 2^14 times finer than e
QMul(a, b) == <<Rnd(a[1] * b[1] - a[2] * b[2] - a[3] * b[3] - a[4] * b[4], One),
                Rnd(a[1] * b[2] + a[2] * b[1] + a[3] * b[4] - a[4] * b[3], One),
                Rnd(a[1] * b[3] - a[2] * b[4] + a[3] * b[1] + a[4] * b[2], One),
                Rnd(a[1] * b[4] + a[2] * b[3] - a[3] * b[2] + a[4] * b[1], One)>>
Conj(q) == <<q[1], -q[2], -q[3], -q[4]>>

\* mean of the rotated accelerations minus gravity, 2^-14 m/s2
MeanAcc(o, n) == LET a == Turn(o.q, Minus(o.am, o.ba))
                     b == Turn(n.q, Minus(n.am, n.ba))
                 IN [i \in 1..3 |-> Rnd(a[i] + b[i], 512) - Gravity14[i]]
\* half of the rotation vector, 2^-14 rad
HalfTurn(o, n) == LET dt == n.t - o.t
                      e0 == Minus(o.wm, o.bw)
                      e1 == Minus(n.wm, n.bw)
                      c == Cross(e0, e1)
                  IN [i \in 1..3 |-> Rnd((e0[i] + e1[i]) * dt, 256) + Rnd(Rnd(c[i], 1024) * dt * dt, 24 * 65536)]
Norm2(x) == (x[1] * x[1] + x[2] * x[2] + x[3] * x[3]) \div One     \* 2^-14
\* how far apart two attitudes are, as half a rotation vector (2^-14 rad), sign of the quaternion aside
Apart(q, r) == LET d == QMul(Conj(q), r) IN IF d[1] < 0 THEN <<-d[2], -d[3], -d[4]>> ELSE <<d[2], d[3], d[4]>>

VelOK(o, n) == LET m == MeanAcc(o, n) dt == n.t - o.t IN
  \A i \in 1..3 : Abs(n.v[i] - o.v[i]) < 4000000 /\ Abs(256 * (n.v[i] - o.v[i]) - m[i] * dt) <= 512 + 110 * Abs(dt)
PosOK(o, n) == LET dt == n.t - o.t IN
  \A i \in 1..3 : Abs(n.p[i] - o.p[i]) < 8000000 /\ Abs(128 * (n.p[i] - o.p[i]) - (n.v[i] + o.v[i]) * dt) <= 192 + Abs(dt)
AttOK(o, n) == LET e == HalfTurn(o, n)
                   d == Apart(o.q, n.q)
                   s == One - Norm2(e) \div 6                  \* sin h / h
               IN \A i \in 1..3 : Abs(d[i] - Rnd(e[i] * s, One)) <= 4
Carried(o, n) == n.ba = o.ba /\ n.bw = o.bw /\ n.x = o.x
Unit(n) == Abs(n.nn) <= 1          \* squared norm of the attitude, less one, 1e-9
\* rates and steps for which the above is precise
Moderate(o, n) == LET e == HalfTurn(o, n) IN Max3(e) <= 6000 /\ Norm2(e) <= 2000
StepDiffers(o, n) == (IF VelOK(o, n) THEN {} ELSE {"v"}) \union (IF PosOK(o, n) THEN {} ELSE {"p"})
                     \union (IF AttOK(o, n) THEN {} ELSE {"q"}) \union (IF Carried(o, n) THEN {} ELSE {"carried"})
                     \union (IF Unit(n) THEN {} ELSE {"norm"})

\* The readings of a state made between two others lie on the line between theirs.
OnLine(lo, n, hi) == LET w == hi.t - lo.t IN
  \A i \in 1..3 : /\ Abs((n.am[i] - lo.am[i]) * w - (hi.am[i] - lo.am[i]) * (n.t - lo.t)) <= 2 * w
                  /\ Abs((n.wm[i] - lo.wm[i]) * w - (hi.wm[i] - lo.wm[i]) * (n.t - lo.t)) <= 2 * w

\* What a correction does to a state: additions, and a small rotation appended to the attitude
\* (m.dq: the vector part of the appended quaternion, 2^-10).
CorrectDiffers(b, a, m) ==
  (IF \A i \in 1..3 : Abs(a.v[i] - b.v[i] - m.dv[i] * 256) <= 1 THEN {} ELSE {"v"})
  \union (IF \A i \in 1..3 : Abs(a.p[i] - b.p[i] - m.dp[i] * 4096) <= 1 THEN {} ELSE {"p"})
  \union (IF a.ba = Plus(b.ba, m.dba) /\ a.bw = Plus(b.bw, m.dbw) /\ a.x = b.x + m.dx THEN {} ELSE {"sensor"})
  \union (IF a.am = b.am /\ a.wm = b.wm THEN {} ELSE {"readings"})
  \union (LET d == Apart(b.q, a.q) IN IF \A i \in 1..3 : Abs(d[i] - 16 * m.dq[i]) <= 4 THEN {} ELSE {"q"})
  \union (IF Unit(a) THEN {} ELSE {"norm"})

\* The uncertainty gathered in d time units from one source of white noise of density 1 (which: accelerometer, its bias,
\* gyro, its bias), starting from none: the variance of the quantity itself grows with time, the others are untouched.
\* Unit: 1/16 of a time unit.
All(x, P(_)) == P(x[1]) /\ P(x[2]) /\ P(x[3])
NoiseDiffers(ns, d, pn) ==
  LET Grown(x) == Abs(x - 16 * d) <= 1
      None(x) == x = 0
  IN (IF ns[1] = 0 \/ All(pn.v, Grown) THEN {} ELSE {"v"}) \union (IF All(pn.ba, LAMBDA x : IF ns[2] = 0 THEN None(x) ELSE Grown(x)) THEN {} ELSE {"ba"})
     \union (IF ns[3] + ns[4] > 0 \/ All(pn.q, None) THEN {} ELSE {"q"}) \union (IF All(pn.bw, LAMBDA x : IF ns[4] = 0 THEN None(x) ELSE Grown(x)) THEN {} ELSE {"bw"})

\* The step itself, in this arithmetic (used to check the specification).
RECURSIVE Sqrt(_, _, _)
Sqrt(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Sqrt(x, m, hi) ELSE Sqrt(x, lo, m)
Ideal(o, n) ==
  LET e == HalfTurn(o, n)
      n2 == e[1] * e[1] + e[2] * e[2] + e[3] * e[3]
      s == One - (n2 \div One) \div 6                       \* sin h / h
      d == <<Sqrt(One * One - (n2 \div One) * s, 0, 2 * One), Rnd(e[1] * s, One), Rnd(e[2] * s, One), Rnd(e[3] * s, One)>>
      q == QMul(o.q, d)
      n1 == [n EXCEPT !.q = q, !.ba = o.ba, !.bw = o.bw, !.x = o.x]
      m == MeanAcc(o, n1)
      dt == n.t - o.t
      v == [i \in 1..3 |-> o.v[i] + Rnd(m[i] * dt, 256)]
  IN [n1 EXCEPT !.v = v, !.p = [i \in 1..3 |-> o.p[i] + Rnd((v[i] + o.v[i]) * dt, 128)]]
=============================================================================
