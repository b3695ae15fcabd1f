-------------------------------- MODULE Vec --------------------------------
(* Exact small linear algebra over the integers. Vectors and matrices are
   sequences; a rotation is an integer quaternion <<a,b,c,d>> (w first), whose
   matrix is M(q) / N(q) with integer M and N, so products of rotations and
   rotated vectors stay exact when the operands are multiples of N. *)
EXTENDS Integers, Sequences

N2(q) == q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4]
M(q) == LET a == q[1]  b == q[2]  c == q[3]  d == q[4]
        IN << << a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c) >>,
              << 2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b) >>,
              << 2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d >> >>
Conj(q) == << q[1], -q[2], -q[3], -q[4] >>
QMul(x, y) == << x[1]*y[1]-x[2]*y[2]-x[3]*y[3]-x[4]*y[4],
                 x[1]*y[2]+x[2]*y[1]+x[3]*y[4]-x[4]*y[3],
                 x[1]*y[3]-x[2]*y[4]+x[3]*y[1]+x[4]*y[2],
                 x[1]*y[4]+x[2]*y[3]-x[3]*y[2]+x[4]*y[1] >>
Id4 == <<1, 0, 0, 0>>
T(m) == [i \in 1..3 |-> [j \in 1..3 |-> m[j][i]]]
MM(x, y) == [i \in 1..3 |-> [j \in 1..3 |-> x[i][1]*y[1][j] + x[i][2]*y[2][j] + x[i][3]*y[3][j]]]
MV(m, v) == << m[1][1]*v[1]+m[1][2]*v[2]+m[1][3]*v[3], m[2][1]*v[1]+m[2][2]*v[2]+m[2][3]*v[3], m[3][1]*v[1]+m[3][2]*v[2]+m[3][3]*v[3] >>
\* exact division: a rotated vector, R(q) v
Rv(q, v) == LET x == MV(M(q), v) IN << x[1] \div N2(q), x[2] \div N2(q), x[3] \div N2(q) >>
RTv(q, v) == Rv(Conj(q), v)
Add(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
Sub(x, y) == [i \in 1..Len(x) |-> x[i] - y[i]]
Scale(k, x) == [i \in 1..Len(x) |-> k * x[i]]
DivV(x, k) == [i \in 1..Len(x) |-> x[i] \div k]
Neg(x) == Scale(-1, x)
Flat(m) == [k \in 1..9 |-> m[((k-1) \div 3) + 1][((k-1) % 3) + 1]]
\* the rotation matrix of q, in ninths
Rot9(q) == [k \in 1..9 |-> (9 * Flat(M(q))[k]) \div N2(q)]
Skew(v) == << <<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>> >>
MAdd(x, y) == [i \in 1..3 |-> [j \in 1..3 |-> x[i][j] + y[i][j]]]
MScale(k, x) == [i \in 1..3 |-> [j \in 1..3 |-> k * x[i][j]]]
MDiv(x, k) == [i \in 1..3 |-> [j \in 1..3 |-> x[i][j] \div k]]
Abs(x) == IF x < 0 THEN -x ELSE x
\* square root of a perfect square up to 100
Root(n) == CHOOSE r \in 0..100 : r * r = n
=============================================================================
