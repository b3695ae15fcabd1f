------------------------------- MODULE Update -------------------------------
(* The arithmetic of one measurement update and of one covariance prediction,
   over exact integers.

   Matrices are sequences of rows; a sparse matrix is a sequence of triples
   <<row, column, value>>. An inverse is given by a witness: V and D with
   S V = D I, so that the inverse of S is V / D and every result is an integer
   multiple of 1/D.

   Absolute update (residual r, linearisation H, covariance R, state covariance P):
      G  = P H'              S = H G + R
      rejected iff the gate is on and r' S^-1 r > thr^2
      correction = G S^-1 r              P+ = P - G S^-1 G'
   Relative update between an older state (P old, transitions F1..Fk up to the
   newer one) and a newer state (P new): the same with
      G = F Po Ho' + Pn Hn'   S = [Ho Hn] [[Po, Po F'], [F Po, Pn]] [Ho Hn]' + R.

   Covariance prediction over dt from P, attitude C, and bias-free readings a, w:
      P+ = F P F' + Q,  F the truncated error-state transition, Q the noise
      integrated over the interval up to third order. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Vec

Zeros(n, m) == [i \in 1..n |-> [j \in 1..m |-> 0]]
\* a triple repeated for the same place overwrites
Dense(t, n, m) == FoldLeft(LAMBDA acc, e : [acc EXCEPT ![e[1]][e[2]] = e[3]], Zeros(n, m), t)
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Dot(x, y) == FoldLeftDomain(LAMBDA s, k : s + x[k] * y[k], 0, x)
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
Tr(x) == TLCEval([j \in 1..Len(x[1]) |-> Col(x, j)])
Mul(x, y) == LET yt == Tr(y) IN TLCEval([i \in 1..Len(x) |-> [j \in 1..Len(y[1]) |-> Dot(x[i], yt[j])]])
Plus(x, y) == TLCEval([i \in 1..Len(x) |-> [j \in 1..Len(x[1]) |-> x[i][j] + y[i][j]]])
Minus(x, y) == TLCEval([i \in 1..Len(x) |-> [j \in 1..Len(x[1]) |-> x[i][j] - y[i][j]]])
Times(k, x) == TLCEval([i \in 1..Len(x) |-> [j \in 1..Len(x[1]) |-> k * x[i][j]]])
Over(x, k) == TLCEval([i \in 1..Len(x) |-> [j \in 1..Len(x[1]) |-> x[i][j] \div k]])
Eye(n, d) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN d ELSE 0]])
Symmetric(x) == \A i, j \in 1..Len(x) : x[i][j] = x[j][i]
\* X H' for a sparse H with m rows
TimesHt(X, H, m) == TLCEval([i \in 1..Len(X) |-> [a \in 1..m |-> FoldLeft(LAMBDA s, e : IF e[1] = a THEN s + X[i][e[2]] * e[3] ELSE s, 0, H)]])
\* H X for a sparse H with m rows
HTimes(H, X, m) == TLCEval([a \in 1..m |-> [j \in 1..Len(X[1]) |-> FoldLeft(LAMBDA s, e : IF e[1] = a THEN s + e[3] * X[e[2]][j] ELSE s, 0, H)]])
IsInverse(S, V, D) == D > 0 /\ Mul(S, V) = Eye(Len(S), D)

\* ------------------------------------------------------------ absolute update
Innovation(P, H, R) == LET m == Len(R) IN Plus(HTimes(H, TimesHt(P, H, m), m), R)
Distance(r, V) == Dot(r, TLCEval([i \in 1..Len(r) |-> Dot(V[i], r)]))       \* times D
Rejected(gate, thr, r, V, D) == gate = 1 /\ Distance(r, V) > thr * thr * D
Correction(G, V, r) == LET x == TLCEval([a \in 1..Len(r) |-> Dot(V[a], r)]) IN TLCEval([i \in 1..Len(G) |-> Dot(G[i], x)])      \* times D
Posterior(P, G, V, D) == Minus(Times(D, P), Mul(Mul(G, V), Tr(G)))                              \* times D

\* ------------------------------------------------------------ relative update
Through(F, X) == FoldLeft(LAMBDA acc, e : [acc EXCEPT ![e[1]] = TLCEval([j \in 1..Len(X[1]) |-> @[j] + e[3] * X[e[2]][j]])], X, F)   \* (I + F) X
CrossGain(Po, Fs, Ho, m) == FoldLeft(LAMBDA acc, F : Through(F, acc), TimesHt(Po, Ho, m), Fs)
RelGain(Po, Pn, Fs, Ho, Hn, m) == Plus(CrossGain(Po, Fs, Ho, m), TimesHt(Pn, Hn, m))
RelInnovation(Po, Pn, Fs, Ho, Hn, R) ==
  LET m == Len(R)
      X == HTimes(Hn, CrossGain(Po, Fs, Ho, m), m)
  IN Plus(Plus(Plus(HTimes(Ho, TimesHt(Po, Ho, m), m), HTimes(Hn, TimesHt(Pn, Hn, m), m)), Plus(X, Tr(X))), R)

\* ------------------------------------------------------------ covariance prediction
Modulus == 30011
Md(x) == x % Modulus
\* k1..k5: U dt, U dt^2/2, U dt^3/6, U dt^4/24, U dt^5/120 for a unit U that makes them integers
Coefs(U, n, d) == LET q(x) == (x * n) \div d IN
                  << q(U), q(q(U)) \div 2, q(q(q(U))) \div 6, q(q(q(q(U)))) \div 24, q(q(q(q(q(U))))) \div 120 >>
Lin3(x, A, y, B, z, C) == MAdd(MAdd(MScale(x, A), MScale(y, B)), MScale(z, C))
I3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
\* the transition, in units of 1/(U N2(q))
Transition(k, U, q, a, w) ==
  LET W == Skew(w)  W2 == MM(W, W)  n == N2(q)
      Ca == MM(M(q), Skew(a))
      A == MM(Ca, Lin3(-k[2], I3, k[3], W, -k[4], W2))
      B == MM(Ca, Lin3(k[3], I3, -k[4], W, k[5], W2))
      Cv == MM(Ca, Lin3(-k[1], I3, k[2], W, -k[3], W2))
      E == MScale(n, Lin3(U, I3, -k[1], W, k[2], W2))
      Fb == MScale(n, Lin3(-k[1], I3, k[2], W, -k[3], W2))
      Block(i, j) ==
        CASE i = j /\ i # 3 -> MScale(n * U, I3)
          [] i = 1 /\ j = 2 -> MScale(n * k[1], I3)
          [] i = 1 /\ j = 3 -> A
          [] i = 1 /\ j = 4 -> B
          [] i = 1 /\ j = 5 -> MScale(-k[2], M(q))
          [] i = 2 /\ j = 3 -> Cv
          [] i = 2 /\ j = 4 -> MScale(-1, A)
          [] i = 2 /\ j = 5 -> MScale(-k[1], M(q))
          [] i = 3 /\ j = 3 -> E
          [] i = 3 /\ j = 4 -> Fb
          [] OTHER -> MScale(0, I3)
      blk == TLCEval([i \in 1..5 |-> [j \in 1..5 |-> Block(i, j)]])
  IN TLCEval([i \in 1..16 |-> [j \in 1..16 |->
        IF i = 16 \/ j = 16 THEN (IF i = j THEN n * U ELSE 0)
        ELSE blk[((i - 1) \div 3) + 1][((j - 1) \div 3) + 1][((i - 1) % 3) + 1][((j - 1) % 3) + 1]]])
\* the integrated noise in units of 1/(U N2(q))^2, modulo Modulus; the gyro terms are those for w = 0.
\* ns = <<acc noise, acc bias noise, gyro noise, gyro bias noise, density of the last state>>
Noise(k, U, q, a, ns) ==
  LET n == N2(q)  sc == Md(U * n)
      na == ns[1] * ns[1]  nba == ns[2] * ns[2]  nw == ns[3] * ns[3]  nbw == ns[4] * ns[4]
      c1 == Md(sc * Md(k[1] * n))  c2 == Md(sc * Md(k[2] * n))  c3 == Md(sc * Md(k[3] * n))    \* dt, dt^2/2, dt^3/6
      m2 == Md(sc * Md(k[2]))  m3 == Md(sc * Md(k[3]))                                          \* the same over n
      Ca == MM(M(q), Skew(a))
      CaCa == MM(Ca, T(Ca))
      sq3 == Md(Md(U) * Md(k[3]))                                                               \* dt^3/6 over n^2
      MdM(x) == [i \in 1..3 |-> [j \in 1..3 |-> Md(x[i][j])]]
      Block(i, j) ==
        CASE i = 1 /\ j = 1 -> MScale(Md(2 * c3 * na), I3)
          [] i = 1 /\ j = 2 -> MScale(Md(c2 * na), I3)
          [] i = 1 /\ j = 3 -> MScale(-Md(m3 * nw), MdM(Ca))
          [] i = 1 /\ j = 5 -> MScale(-Md(m3 * nba), MdM(M(q)))
          [] i = 2 /\ j = 2 -> MAdd(MScale(Md(c1 * na) + Md(2 * c3 * nba), I3), MScale(Md(2 * sq3 * nw), MdM(CaCa)))
          [] i = 2 /\ j = 3 -> MScale(-Md(m2 * nw), MdM(Ca))
          [] i = 2 /\ j = 4 -> MScale(Md(m3 * nbw), MdM(Ca))
          [] i = 2 /\ j = 5 -> MScale(-Md(m2 * nba), MdM(M(q)))
          [] i = 3 /\ j = 3 -> MScale(Md(c1 * nw) + Md(2 * c3 * nbw), I3)
          [] i = 3 /\ j = 4 -> MScale(-Md(c2 * nbw), I3)
          [] i = 4 /\ j = 4 -> MScale(Md(c1 * nbw), I3)
          [] i = 5 /\ j = 5 -> MScale(Md(c1 * nba), I3)
          [] OTHER -> MScale(0, I3)
      blk == TLCEval([i \in 1..5 |-> [j \in 1..5 |-> IF i <= j THEN Block(i, j) ELSE T(Block(j, i))]])
  IN TLCEval([i \in 1..16 |-> [j \in 1..16 |->
        IF i = 16 \/ j = 16 THEN (IF i = j THEN Md(c1 * ns[5]) ELSE 0)
        ELSE Md(blk[((i - 1) \div 3) + 1][((j - 1) \div 3) + 1][((i - 1) % 3) + 1][((j - 1) % 3) + 1])]])
\* F P F' + Q for a sparse P
Predicted(F, P, Q) ==
  LET Fm == TLCEval([i \in 1..16 |-> [j \in 1..16 |-> Md(F[i][j])]])
      rows == TLCEval([i \in 1..16 |-> SelectSeq(TLCEval([x \in 1..Len(P) |-> <<Md(Fm[i][P[x][1]] * P[x][3]), P[x][2]>>]), LAMBDA e : e[1] # 0)])
  IN TLCEval([i \in 1..16 |-> [j \in 1..16 |-> FoldLeft(LAMBDA s, e : Md(s + Md(e[1] * Fm[j][e[2]])), Q[i][j], rows[i])]])
=============================================================================
