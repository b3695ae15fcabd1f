------------------------------- MODULE Frames -------------------------------
(* Coordinate frames: the WGS84 ellipsoid and local east-north-up frames, the
   similarity transform between two sets of poses, and pose messages. Everything
   is integer arithmetic: an angle is given by its rational sine and cosine,
   <<n, m, d>> standing for sin = n/d, cos = m/d. *)
EXTENDS Vec, FiniteSets, TLC
\* x * n / d without leaving 32 bits, rounded down
MulDiv(x, n, d) == (x \div d) * n + ((x % d) * n) \div d
\* tan(half the angle) = p / q
Angle(p, q) == <<2 * p * q, q * q - p * p, p * p + q * q>>
Sin(x, g) == MulDiv(x, g[1], g[3])
Cos(x, g) == MulDiv(x, g[2], g[3])
IsAngle(g) == g[3] > 0 /\ g[3] <= 40000
------------------------------------------------------------------------------
(* WGS84: a = 6378137 m, 1/f = 298.257223563, e^2 = 2f - f^2 = 1/149.379031587.
   The prime vertical radius N = a / sqrt(1 - e^2 sin^2 lat) is a plus the series
   a (1/2 e^2 s^2 + 3/8 e^4 s^4 + 5/16 e^6 s^6 + 35/128 e^8 s^8 + ...), here in mm. *)
A_CM == 637813700
RadiusExcess(lat) ==
  LET t1 == Sin(Sin(21348836, lat), lat)
      t2 == Sin(Sin(Sin(Sin(107188, lat), lat), lat), lat)
      t3 == Sin(Sin(Sin(Sin(Sin(Sin(598, lat), lat), lat), lat), lat), lat)
  IN t1 + t2 + t3
E2(x) == MulDiv(x, 1000, 149379)
\* earth centred coordinates in cm of a point at height h cm
Ecef(lat, lon, h) ==
  LET n == (RadiusExcess(lat) + 5) \div 10
      r == Cos(A_CM, lat) + Cos(n + h, lat)
  IN << Cos(r, lon), Sin(r, lon), Sin(A_CM - 4269767 + n - E2(n) + h, lat) >>
\* east, north and up of an earth centred difference, at a reference latitude and longitude
Local(lat, lon, d) ==
  LET out == Cos(d[1], lon) + Sin(d[2], lon)      \* away from the axis
  IN << Cos(d[2], lon) - Sin(d[1], lon), Cos(d[3], lat) - Sin(out, lat), Cos(out, lat) + Sin(d[3], lat) >>
\* the local coordinates of p, given the reference (or none)
ToLocal(ref, p) == IF ref.set THEN Local(ref.lat, ref.lon, Sub(p, Ecef(ref.lat, ref.lon, ref.h))) ELSE p
NoReference == [set |-> FALSE, lat |-> <<0, 1, 1>>, lon |-> <<0, 1, 1>>, h |-> 0]
Reference(lat, lon, h) == [set |-> TRUE, lat |-> lat, lon |-> lon, h |-> h]
Near(x, y, tol) == \A i \in 1..Len(x) : Abs(x[i] - y[i]) <= tol
\* 5 cm for earth centred, 20 cm for local coordinates: the rounding of the integer arithmetic
TolEcef == 5
TolLocal == 20
------------------------------------------------------------------------------
(* Similarity: pairs <<q1, t1, q2, t2>> of poses. The attitude offset maximises the
   sum of squared products with the offsets of the pairs; position p and scale s
   minimise the sum of | s u - v - p |^2, with u and v the positions of the second
   and first pose seen from the first pose's attitude. *)
Offset(m) == QMul(Conj(m.q1), m.q2)
U(m) == RTv(m.q1, m.t2)
W(m) == RTv(m.q1, m.t1)
Dot(x, y) == x[1]*y[1] + x[2]*y[2] + x[3]*y[3]
RECURSIVE SumI(_, _), SumV(_, _)
SumI(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumI(F, n - 1)
SumV(F(_), n) == IF n = 0 THEN <<0, 0, 0>> ELSE Add(F(n), SumV(F, n - 1))
Sums(ms) == LET n == Len(ms)
                fu(i) == U(ms[i])
                fw(i) == W(ms[i])
                fuu(i) == Dot(U(ms[i]), U(ms[i]))
                fuw(i) == Dot(U(ms[i]), W(ms[i]))
            IN [n |-> n, u |-> SumV(fu, n), w |-> SumV(fw, n), uu |-> SumI(fuu, n), uw |-> SumI(fuw, n)]
Det(s) == s.n * s.uu - Dot(s.u, s.u)
\* s * ScaleDen = ScaleNum; when all u coincide the shortest solution (p, s) is taken
ScaleDen(s) == IF Det(s) # 0 THEN Det(s) ELSE s.n * s.n + Dot(s.u, s.u)
ScaleNum(s) == IF Det(s) # 0 THEN s.n * s.uw - Dot(s.u, s.w) ELSE Dot(s.u, s.w)
\* logged scale and position are in 1/10000
ScaleOk(s, k) == Abs(ScaleNum(s) * 10000 - k * ScaleDen(s)) <= ScaleDen(s)
PositionOk(s, k, p) == \A i \in 1..3 : Abs(s.n * p[i] - (k * s.u[i] - s.w[i] * 10000)) <= s.n + Abs(s.u[i])
\* the condition number c (in 1/1000): c + 1/c + 2 = (n + uu)^2 / Det
ConditionOk(s, c) == IF Det(s) = 0 THEN c >= 1000000
                     ELSE LET x == s.n + s.uu
                              want == MulDiv(x * x, 1000, Det(s))
                          IN c >= 999 /\ (want > 100000000 \/ Abs(want - 2000 - 1000000 \div c - c) <= 3 + want \div 1000)
\* 36 times the sum of the normalised offsets' outer products
Outer36(ms) == LET f(i, j, k) == (36 \div N2(Offset(ms[k]))) * Offset(ms[k])[i] * Offset(ms[k])[j]
               IN [i \in 1..4 |-> [j \in 1..4 |-> LET g(k) == f(i, j, k) IN SumI(g, Len(ms))]]
Apply4(m, x) == [i \in 1..4 |-> m[i][1]*x[1] + m[i][2]*x[2] + m[i][3]*x[3] + m[i][4]*x[4]]
Dot4(x, y) == x[1]*y[1] + x[2]*y[2] + x[3]*y[3] + x[4]*y[4]
Candidates == {q \in {<<a, b, c, d>> : a \in 0..1, b \in -1..1, c \in -1..1, d \in -1..1} : N2(q) > 0}
SameOffset(ms) == \A i \in DOMAIN ms : \A j \in 1..4 : \A k \in 1..4 :
  Offset(ms[i])[j] * Offset(ms[i])[k] * N2(Offset(ms[1])) = Offset(ms[1])[j] * Offset(ms[1])[k] * N2(Offset(ms[i]))
\* the logged attitude (in 1/10000): of unit length; the common offset up to sign, or an eigenvector that no candidate surpasses
AttitudeOk(ms, x) ==
  LET n == N2(Offset(ms[1]))
      y == [i \in 1..4 |-> x[i] \div 10]
      m == TLCEval(Outer36(ms))
      my == TLCEval(Apply4(m, y))
      val == Dot4(my, y) \div 1000        \* 36000 times the eigenvalue
  IN /\ Abs(N2(x) - 100000000) <= 60000
     /\ IF SameOffset(ms)
        THEN \A i \in 1..4 : \A j \in 1..4 : Abs(x[i] * x[j] * n - 100000000 * Offset(ms[1])[i] * Offset(ms[1])[j]) <= 20000 * n
        ELSE /\ \A i \in 1..4 : \A j \in 1..4 : Abs(my[i] * y[j] - my[j] * y[i]) <= 3000 * 36 * Len(ms)
             /\ \A c \in Candidates : Dot4(Apply4(m, c), c) * 1000 <= (val + 200 * Len(ms)) * N2(c)
             /\ \A k \in DOMAIN ms : Dot4(Apply4(m, Offset(ms[k])), Offset(ms[k])) * 1000 <= (val + 200 * Len(ms)) * N2(Offset(ms[k]))
------------------------------------------------------------------------------
(* The covariance of a pose message: setting a block also sets the transposed block opposite. *)
NoCov == [i \in 1..6 |-> [j \in 1..6 |-> 0]]
SetBlock(c, r, k, b) ==
  [i \in 1..6 |-> [j \in 1..6 |->
     IF r # k /\ i \in k+1..k+3 /\ j \in r+1..r+3 THEN b[j - r][i - k]
     ELSE IF i \in r+1..r+3 /\ j \in k+1..k+3 THEN b[i - r][j - k] ELSE c[i][j]]]
GetBlock(c, r, k) == [i \in 1..3 |-> [j \in 1..3 |-> c[r + i][k + j]]]
Symmetric(c) == \A i \in 1..6 : \A j \in 1..6 : c[i][j] = c[j][i]
------------------------------------------------------------------------------
(* Quaternion helpers. Quaternions w first. *)
Pure(v) == <<0, v[1], v[2], v[3]>>
CrossV(v, w) == MV(Skew(v), w)
\* half-angle quaternion of a small rotation vector th (in 1/8): logged x in 1/10000
SmallAngleOk(th, x) ==
  LET sq == Dot(th, th)      \* 64 times the squared angle
  IN /\ Abs(N2(x) - 100000000) <= 60000 /\ x[1] >= 0
     /\ IF sq < 256 THEN \A i \in 1..3 : Abs(x[i + 1] - th[i] * 625) <= 1
        ELSE \* w^2 (1 + sq/256) = 1, vector part w th / 16
             /\ Abs((x[1] \div 10) * (x[1] \div 10) - (256 * 1000000) \div (256 + sq)) <= 3000
             /\ \A i \in 1..3 : Abs(16 * x[i + 1] - x[1] * th[i]) <= 16 + Abs(th[i])
=============================================================================
