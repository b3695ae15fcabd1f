------------------------------ MODULE UpdateMC ------------------------------
(* The update arithmetic itself, checked exhaustively on two-dimensional states:
   a posterior is symmetric, positive semidefinite and never larger than the
   prior; two successive updates commute and equal the joint one; a relative
   update that does not look at the older state is the absolute one, and one
   that compares a state with itself changes nothing. *)
EXTENDS Update
CONSTANTS MaxP, MaxR, Hs
VARIABLES P, h1, h2, r1, r2, res
Rows == {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<1, -2>>}
vars == <<P, h1, h2, r1, r2, res>>
Psd2(x) == x[1][1] >= 0 /\ x[2][2] >= 0 /\ x[1][1] * x[2][2] >= x[1][2] * x[2][1]
Row(k, h) == SelectSeq(<< <<k, 1, h[1]>>, <<k, 2, h[2]>> >>, LAMBDA e : e[3] # 0)
\* one scalar update of P / u: the pair <<posterior, its unit>> and the correction times the innovation
One(X, u, h, r, x) ==
  LET H == Row(1, h)  S == Innovation(X, H, << <<r * u>> >>)[1][1]  G == TimesHt(X, H, 1)
  IN [P |-> Posterior(X, G, << <<1>> >>, S), u |-> u * S, c |-> Correction(G, << <<1>> >>, <<x>>), D |-> S]
Joint == LET H == Row(1, h1) \o Row(2, h2)
             S == Innovation(P, H, << <<r1, 0>>, <<0, r2>> >>)
             V == << <<S[2][2], -S[1][2]>>, <<-S[2][1], S[1][1]>> >>
             D == S[1][1] * S[2][2] - S[1][2] * S[2][1]
         IN [P |-> Posterior(P, TimesHt(P, H, 2), V, D), u |-> D, c |-> Correction(TimesHt(P, H, 2), V, res), inv |-> IsInverse(S, V, D)]
Init == /\ P \in {<< <<x, y>>, <<y, z>> >> : x \in 0..MaxP, z \in 0..MaxP, y \in -MaxP..MaxP}
        /\ Psd2(P) /\ h1 \in Hs /\ h2 \in Hs /\ r1 \in 1..MaxR /\ r2 \in 1..MaxR /\ res \in {<<1, 0>>, <<0, 1>>, <<2, -3>>}
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Same(x, u, y, w) == \A i, j \in 1..2 : x[i][j] * w = y[i][j] * u
a == One(P, 1, h1, r1, res[1])
ab == One(a.P, a.u, h2, r2, 0)
ba == LET s == One(P, 1, h2, r2, res[2]) IN One(s.P, s.u, h1, r1, 0)
Consistent ==
  /\ Symmetric(a.P) /\ Psd2(a.P) /\ a.P[1][1] <= a.u * P[1][1] /\ a.P[2][2] <= a.u * P[2][2]
  /\ Same(ab.P, ab.u, ba.P, ba.u) /\ Joint.inv /\ Same(ab.P, ab.u, Joint.P, Joint.u)
  \* the correction of the joint update is the sum of the sequential ones (the second sees the first's shift in its residual)
  /\ LET c1 == a.c  d1 == a.D
         y == res[2] * d1 - Dot(<<h2[1], h2[2]>>, c1)                       \* second residual times d1
         s2 == One(a.P, a.u, h2, r2, y)
     IN \A i \in 1..2 : (c1[i] * s2.D * Joint.u + s2.c[i] * Joint.u) = Joint.c[i] * d1 * s2.D
  /\ LET H == Row(1, h1)  G == RelGain(P, P, <<<<>>>>, <<>>, H, 1)
     IN G = TimesHt(P, H, 1) /\ RelInnovation(P, P, <<<<>>>>, <<>>, H, << <<r1>> >>) = Innovation(P, H, << <<r1>> >>)
  /\ LET H == Row(1, h1)  Hm == Row(1, <<-h1[1], -h1[2]>>)
     IN RelGain(P, P, <<<<>>>>, Hm, H, 1) = Zeros(2, 1) /\ RelInnovation(P, P, <<<<>>>>, Hm, H, << <<r1>> >>) = << <<r1>> >>
=============================================================================
