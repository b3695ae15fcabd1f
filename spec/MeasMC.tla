------------------------------- MODULE MeasMC -------------------------------
(* MeasModels is right: its Jacobians are the derivatives of its predictions.
   Predictions are linear in every vector state, so a unit step gives the column;
   a rotation q (K + e_i) and its opposite give it exactly by their difference. *)
EXTENDS MeasModels
CONSTANTS Quats, Vecs, Scales
VARIABLES s
QuatsV == {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<1, 0, -1, 0>>, <<1, 1, 1, 1>>, <<0, 0, 0, 1>>, <<1, 2, 0, 0>>, <<2, 1, -1, 0>>}
VecsV == {<<0, 0, 0>>, <<1, 2, 3>>, <<-3, 1, 0>>}
ScalesV == {8, 5, -3}
QuatsD == QuatsV \union {<<0, 1, 1, 0>>, <<1, 0, 0, 2>>, <<2, 2, 1, 0>>, <<-1, 1, 2, 1>>, <<1, -1, 1, -1>>}
VecsD == VecsV \union {<<5, -4, 2>>, <<0, 0, 7>>}
ScalesD == ScalesV \union {0, 16}
K == 2
E(i) == [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]
Turn(q, i, sg) == QMul(q, <<K, sg * E(i)[1], sg * E(i)[2], sg * E(i)[3]>>)
kp == 64 * N2(s.q) * N2(s.qwv)
ka == N2(s.q) * N2(s.qic)
J == PoseJacobian(s, kp, ka)
ColOf(H, rows, i) == TLCEval([k \in 1..Len(rows) |-> H[rows[k]][i]])
Pos == <<1, 2, 3>>
Att == <<4, 5, 6>>
LinearOk(x) == \A i \in 1..3 : Scale(8, Sub(PosePoint([s EXCEPT ![x] = Add(@, E(i))], kp), PosePoint(s, kp))) = ColOf(J[x], Pos, i)
ScaleOk == Scale(8, Sub(PosePoint([s EXCEPT !.L = @ + 1], kp), PosePoint(s, kp))) = ColOf(J.L, Pos, 1)
TurnOk(x) == \A i \in 1..3 :
  Sub(PosePoint([s EXCEPT ![x] = Turn(@, i, 1)], kp * (K * K + 1)), PosePoint([s EXCEPT ![x] = Turn(@, i, -1)], kp * (K * K + 1)))
    = Scale(4 * K, ColOf(J[x], Pos, i))
\* a small turn of x by 2/K about e_i changes the attitude residual at zero by minus the column times 2/K
AttitudeOk(x) == \A i \in 1..3 :
  LET e == AttError([s EXCEPT ![x] = Turn(@, i, 1)], CamAttitude(s))
  IN /\ e[1] # 0
     /\ Scale(K * ka, <<e[2], e[3], e[4]>>) = Scale(-e[1], ColOf(J[x], Att, i))
PoseModelOk == /\ \A x \in {"p", "pwv", "pic"} : LinearOk(x)
               /\ ScaleOk /\ TurnOk("q") /\ TurnOk("qwv")
               /\ \A x \in {"q", "qwv", "qic"} : AttitudeOk(x)
               /\ \A i \in 1..3 : ColOf(J.qic, Pos, i) = <<0, 0, 0>>
\* the change of a reading that repeats the change of the state leaves no residual, a further turn of the reading shows as itself
Other == [s EXCEPT !.q = QMul(@, <<1, 1, 0, 1>>), !.p = Add(@, <<3, -1, 2>>)]
RelativeOk ==
  /\ LET e == RelAttError(Other, s, CamAttitude(Other), CamAttitude(s)) IN e[1] # 0 /\ e[2] = 0 /\ e[3] = 0 /\ e[4] = 0
  /\ \A i \in 1..3 : LET e == RelAttError(Other, s, CamAttitude(Other), QMul(CamAttitude(s), <<K, E(i)[1], E(i)[2], E(i)[3]>>))
                     IN Scale(K, <<e[2], e[3], e[4]>>) = Scale(e[1], E(i))
  \* a wrong state shows with the sign of the new Jacobian
  /\ \A i \in 1..3 : LET t == [s EXCEPT !.q = Turn(@, i, 1)]
                         e == RelAttError(Other, t, CamAttitude(Other), CamAttitude(s))
                     IN Scale(K * ka, <<e[2], e[3], e[4]>>) = Scale(-e[1], ColOf(J.q, Att, i))
\* position: u = p + C p_ip, as 8 N2(q) u
At(t) == Add(Scale(N2(t.q), t.p), MV(M(t.q), t.pip))
PositionOk ==
  LET H == PosJacobian(s) IN
  /\ \A i \in 1..3 : Scale(8, Sub(At([s EXCEPT !.p = Add(@, E(i))]), At(s))) = ColOf(H.p, Pos, i)
  /\ \A i \in 1..3 : Scale(8, Sub(At([s EXCEPT !.pip = Add(@, E(i))]), At(s))) = ColOf(H.pip, Pos, i)
  /\ \A i \in 1..3 : Sub(At([s EXCEPT !.q = Turn(@, i, 1)]), At([s EXCEPT !.q = Turn(@, i, -1)])) = Scale(4 * K, ColOf(H.q, Pos, i))
\* range and bearing: here p is in 1/8 and the target U is N2(q) u; the rows are taken at the target
Row(g) == RowOf(g, s)
SphericalOk ==
  LET n == N2(s.q)  u == At(s)
      x == u[1] y == u[2] z == u[3]
      rho2 == x * x + y * y
      grad == << <<x, y, z>>, <<-y, x, 0>>, <<x * z, y * z, -rho2>> >>
      dot(a, c) == a[1] * c[1] + a[2] * c[2] + a[3] * c[3]
  IN \* inclination does not change along the target or along the azimuth direction
     /\ dot(grad[3], u) = 0 /\ dot(grad[3], grad[2]) = 0 /\ dot(grad[2], u) = 0
     \* chain rule through p, the attitude and the lever arm
     /\ \A k \in 1..2 : \A i \in 1..3 :
          LET H == Row(grad[k]) IN
          /\ H.p[i] = 8 * n * grad[k][i]
          /\ 8 * dot(grad[k], Sub(At([s EXCEPT !.pip = Add(@, E(i))]), u)) = H.pip[i]
          /\ dot(grad[k], Sub(At([s EXCEPT !.q = Turn(@, i, 1)]), At([s EXCEPT !.q = Turn(@, i, -1)]))) = 4 * K * H.q[i]
\* two steps, so that the states are checked by all workers
S0(q, w) == [p |-> <<0, 0, 0>>, q |-> q, qwv |-> w, qic |-> Id4, pwv |-> <<0, 0, 0>>, pic |-> <<0, 0, 0>>, L |-> 8, bp |-> 0, pip |-> <<0, 0, 0>>, pu |-> 8]
Init == \E q, w \in Quats : s = [done |-> FALSE] @@ S0(q, w)
Next == /\ ~s.done
        /\ \E c \in Quats, a, d \in Vecs, k \in Scales :
             s' = [s EXCEPT !.done = TRUE, !.p = a, !.qic = c, !.pwv = d, !.pic = Add(a, d), !.L = k, !.pip = Sub(d, a)]
Spec == Init /\ [][Next]_s
=============================================================================
