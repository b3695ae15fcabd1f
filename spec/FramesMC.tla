------------------------------ MODULE FramesMC ------------------------------
(* Frames is right: references map to the origin and their vertical to up, local
   frames keep lengths, and pose pairs made by a similarity give it back. *)
EXTENDS Frames
CONSTANTS Halves, Heights, Quats, Vecs, Scales, MaxPairs
VARIABLES ref, q, p, k, ms, cov
vars == <<ref, q, p, k, ms, cov>>
HalvesV == {<<0, 1>>, <<1, 3>>, <<-2, 5>>, <<1, 1>>, <<-1, 1>>, <<40, 101>>}
HeightsV == {0, 123456}
QuatsV == {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<1, 0, -1, 1>>}
VecsV == {<<0, 0, 0>>, <<1, -2, 3>>}
ScalesV == {1, -2}
HalvesD == HalvesV \union {<<-1, 4>>, <<7, 9>>, <<99, 100>>}
QuatsD == QuatsV \union {<<0, 1, 0, 0>>}
VecsD == VecsV \union {<<2, 1, 1>>}
ScalesD == {1, 2, -2}
Lons == Halves \union {<<1, 0>>, <<3, -1>>}
Blk == << <<1, 2, 3>>, <<2, 5, 6>>, <<3, 6, 9>> >>
Off == << <<1, 2, 3>>, <<4, 5, 6>>, <<7, 8, 9>> >>
Init == ref = NoReference /\ q \in Quats /\ p \in Vecs /\ k \in Scales /\ ms = <<>> /\ cov = NoCov
SetRef == \E a \in Halves, o \in Lons, h \in Heights :
            ref = NoReference /\ ms = <<>> /\ cov = NoCov
            /\ ref' = Reference(Angle(a[1], a[2]), Angle(o[1], o[2]), h) /\ UNCHANGED <<q, p, k, ms, cov>>
\* the position offset; divisible by every quaternion's squared norm
P == Scale(6, p)
\* the second position, seen from the first attitude, is N u; the first then is k N u - P
AddPair == \E a \in Quats, u \in Vecs, sg \in {1, -1} :
             /\ ref = NoReference /\ cov = NoCov /\ Len(ms) < MaxPairs
             /\ ms' = Append(ms, [q1 |-> a, t1 |-> MV(M(a), Sub(Scale(k, u), DivV(P, N2(a)))),
                                  q2 |-> Scale(sg, QMul(a, q)), t2 |-> MV(M(a), u)])
             /\ UNCHANGED <<ref, q, p, k, cov>>
Cov == \E r \in {0, 3}, c \in {0, 3} : ref = NoReference /\ ms = <<>>
         /\ cov' = SetBlock(cov, r, c, IF r = c THEN Blk ELSE Off) /\ UNCHANGED <<ref, q, p, k, ms>>
Spec == Init /\ [][SetRef \/ AddPair \/ Cov]_vars
Here == Ecef(ref.lat, ref.lon, ref.h)
ReferenceOk == ref.set =>
  /\ ToLocal(ref, Here) = <<0, 0, 0>>
  /\ \A d \in {1000000, -500000} : Near(ToLocal(ref, Ecef(ref.lat, ref.lon, ref.h + d)), <<0, 0, d>>, TolLocal)
  /\ \A d \in {<<1000, 0, 0>>, <<0, -700, 300>>, <<500, 500, 500>>} :
       LET x == ToLocal(ref, Add(Here, d)) IN Abs(Dot(x, x) - Dot(d, d)) <= 40000
\* towards the north pole is north, along the turning earth is east, seen from the reference at sea level
DirectionsOk == ref.set =>
  /\ ref.lat[2] > 0 => ToLocal(ref, Ecef(<<1, 0, 1>>, ref.lon, 0))[2] > 0 \/ ref.lat = <<1, 0, 1>>
  /\ ref.lat[2] > 0 => ToLocal(ref, Ecef(ref.lat, <<MulDiv(ref.lon[1], 4, 5) + MulDiv(ref.lon[2], 3, 5), MulDiv(ref.lon[2], 4, 5) - MulDiv(ref.lon[1], 3, 5), ref.lon[3]>>, 0))[1] > 0 \/ ref.lon[3] < 30
\* distances from the axis and the equator lie between the poles' and the equator's radius
EllipsoidOk == ref.set => \A i \in 1..3 : Abs(Here[i]) <= A_CM + ref.h
ASSUME  /\ Near(Ecef(<<1, 0, 1>>, <<0, 1, 1>>, 0), <<0, 0, 635675231>>, TolEcef)
        /\ Near(Ecef(<<-1, 0, 1>>, <<1, 0, 1>>, 0), <<0, 0, -635675231>>, TolEcef)
        /\ Near(Ecef(<<0, 1, 1>>, <<1, 0, 1>>, 100), <<0, A_CM + 100, 0>>, TolEcef)
\* the transform that made the pairs is recovered whenever they determine it
SimilarityOk == Len(ms) >= 1 =>
  LET s == TLCEval(Sums(ms))
  IN /\ Det(s) >= 0
     /\ (Det(s) = 0) <=> (\A i \in DOMAIN ms : U(ms[i]) = U(ms[1]))
     /\ SameOffset(ms)
     /\ \A i \in DOMAIN ms : W(ms[i]) = Sub(Scale(k, U(ms[i])), P)
     /\ Det(s) # 0 => ScaleNum(s) = k * ScaleDen(s) /\ Sub(Scale(k, s.u), s.w) = Scale(s.n, P)
CovOk == Symmetric(cov) /\ \A r \in {0, 3}, c \in {0, 3} :
           GetBlock(cov, r, c) = T(GetBlock(cov, c, r)) /\ GetBlock(SetBlock(cov, r, c, Off), r, c) = Off
=============================================================================
