------------------------------ MODULE MsfCore ------------------------------
(***************************************************************************)
(* Executable specification of the filter core (msf_core): the time        *)
(* ordered state buffer, the measurement buffer, the queue of measurements *)
(* that wait for IMU data, dead reckoning, delayed updates with replay,    *)
(* covariance propagation, the fuzzy-tracking watchdog and the lifecycle.  *)
(* Shaped like the implementation: one operator per public entry point.    *)
(*                                                                         *)
(* Units.  Time: 1/1024 s.  am, wm, ba, bw: 1/64 (m/s2, rad/s; am without  *)
(* gravity).  v: 2^-17 m/s.  p: 2^-28 m modulo 65536.  th: 2^-17 rad.      *)
(* f: 1/128 rad.  With these units every dead-reckoning step is exact      *)
(* integer arithmetic.  x and px are "history hashes": a correction with   *)
(* code c maps x to (3x+c) mod 65521 in the auxiliary state X and in the   *)
(* covariance entry of X; one covariance step over dt adds dt to px.  So   *)
(* x names the sequence of corrections in a state and px additionally the  *)
(* exact alternation with the time that was integrated.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

HashMod   == 65521
Interp    == 2        \* farther than 1 ms (1.024 ticks): interpolate
TooFar    == 103      \* farther than 0.1 s (102.4 ticks): no suitable state
BackJump  == -11      \* more than 10 ms back (10.24 ticks): reset
Gap       == 103      \* more than 0.1 s before measurements are accepted
GapExt    == 5121     \* more than 5 s, external propagation
Keep      == 61440    \* 60 s
RefWindow == 30       \* watchdog window

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE SetToSeqAsc(_)
SetToSeqAsc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SetToSeqAsc(S \ {m})

\* ------------------------------------------------------------------ buffers
\* A buffer is a sequence of records with strictly increasing field t.
RECURSIVE CountLess(_, _, _, _)
CountLess(b, t, lo, hi) ==  \* number of elements with time < t; binary search in lo..hi
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF b[m + 1].t < t THEN CountLess(b, t, m + 1, hi) ELSE CountLess(b, t, lo, m)
Less(b, t) == CountLess(b, t, 0, Len(b))
LowerBound(b, t) == Less(b, t) + 1                        \* first index with time >= t, Len+1 if none
At(b, t) == LET i == LowerBound(b, t) IN IF i <= Len(b) /\ b[i].t = t THEN i ELSE 0
UpperBound(b, t) == LET i == LowerBound(b, t) IN IF i <= Len(b) /\ b[i].t = t THEN i + 1 ELSE i
Insert(b, e) == IF At(b, e.t) # 0 THEN b
                ELSE LET k == Less(b, e.t) IN SubSeq(b, 1, k) \o <<e>> \o SubSeq(b, k + 1, Len(b))
Closest(b, t) ==   \* index of the closest element; ties: the earlier one
  LET k == Less(b, t) IN
  IF k + 1 <= Len(b) /\ b[k + 1].t = t THEN k + 1
  ELSE IF k = 0 THEN 1
  ELSE IF k = Len(b) THEN k
  ELSE IF b[k + 1].t - t < t - b[k].t THEN k + 1 ELSE k
Last(b) == b[Len(b)]
Times(b) == {b[i].t : i \in DOMAIN b}

\* ------------------------------------------------------------------- states
ZeroState == [t |-> 0, am |-> 0, wm |-> 0, v |-> 0, p |-> 0, ba |-> 0, bw |-> 0, th |-> 0,
              x |-> 0, f |-> 0, px |-> 0, nan |-> 0]
NonProp == {"ba", "bw", "x", "f"}

MulMod16(a, d) == ((((a * (d \div 256)) % 65536) * 256) + a * (d % 256)) % 65536  \* (a*d) mod 2^16 in 32 bits

\* Dead reckoning from state o to the state n (whose readings and time are set).
Propagate(o, n) ==
  LET dt == n.t - o.t
      acc == (n.am - o.ba) + (o.am - o.ba)
      rot == (n.wm - o.bw) + (o.wm - o.bw)
      v2 == o.v + acc * dt
  IN IF o.nan = 1 \/ n.nan = 1 THEN [n EXCEPT !.nan = 1, !.v = 0, !.p = 0, !.th = 0, !.x = o.x, !.f = o.f, !.ba = o.ba, !.bw = o.bw]
     ELSE [n EXCEPT !.v = v2,
                    !.p = (o.p + MulMod16(((o.v % 65536) + (v2 % 65536)) % 65536, dt % 65536)) % 65536,
                    !.th = o.th + rot * dt,
                    !.ba = o.ba, !.bw = o.bw, !.x = o.x, !.f = o.f]

RECURSIVE Repropagate(_, _, _)
Repropagate(b, i, end) ==  \* redo states i+1 .. end-1 from their predecessors
  IF i + 1 >= end THEN b ELSE Repropagate([b EXCEPT ![i + 1] = Propagate(b[i], b[i + 1])], i + 1, end)

\* Covariance from the last propagated state up to time tt.
PropP(s, tt) ==
  LET i0 == LowerBound(s.buf, s.tP)
  IN IF i0 > Len(s.buf) THEN s
     ELSE LET k == UpperBound(s.buf, tt) - 1 IN  \* last index with time <= tt
          IF k <= i0 THEN s
          ELSE LET base == s.buf[i0] IN
               [s EXCEPT !.buf = [j \in DOMAIN s.buf |->
                                    IF j > i0 /\ j <= k THEN [s.buf[j] EXCEPT !.px = base.px + (s.buf[j].t - base.t)]
                                    ELSE s.buf[j]],
                         !.tP = s.buf[k].t]

\* One covariance step per IMU sample (spreads the load).
PropPOne(s) ==
  LET i0 == LowerBound(s.buf, s.tP)
  IN IF i0 >= Len(s.buf) THEN s
     ELSE LET o == s.buf[i0]
              n == s.buf[i0 + 1]
              s2 == [s EXCEPT !.buf[i0 + 1].px = o.px + (n.t - o.t), !.tP = n.t]
          IN IF n.nan = 1 THEN [s2 EXCEPT !.init = FALSE, !.pred = FALSE] ELSE s2

\* ------------------------------------------------------------- whole filter
\* inexact: an interpolated reading was not an integer (the rest of the behaviour is then not judged).
NewFilter == [init |-> FALSE, pred |-> FALSE, buf |-> <<>>, meas |-> <<>>, pend |-> <<>>,
              tP |-> 0, tI |-> 0, ref |-> <<>>, pos |-> 1, clean |-> <<0>>, cleanx |-> <<0>>, fixb |-> 0,
              inexact |-> FALSE]

\* GetClosestState(t): find or make the state a measurement at t applies to.
\* Result: [s, i (0: none), how].
ClosestState(s, t) ==
  LET b == s.buf
      c == Closest(b, t)
      d == Abs(b[c].t - t)
      k == Less(b, t)
      hasBefore == k >= 1
      u == UpperBound(b, t)
  IN IF d >= TooFar THEN [s |-> s, i |-> 0, how |-> "none"]
     ELSE IF d >= Interp /\ hasBefore /\ u <= Len(b) /\ b[k].nan = 0 /\ b[u].nan = 0
     THEN LET lo == b[k]
              hi == b[u]
              w == hi.t - lo.t
              da == (hi.am - lo.am) * (t - lo.t)
              dw == (hi.wm - lo.wm) * (t - lo.t)
              n == [ZeroState EXCEPT !.t = t, !.am = lo.am + da \div w, !.wm = lo.wm + dw \div w]
              s2 == [s EXCEPT !.buf = Insert(b, Propagate(lo, n)), !.tP = Min(s.tP, lo.t),
                              !.inexact = s.inexact \/ da % w # 0 \/ dw % w # 0]
          IN LET s3 == PropP(s2, t) IN [s |-> s3, i |-> At(s3.buf, t), how |-> "interp"]
     ELSE LET s3 == PropP(s, b[c].t) IN
          [s |-> s3, i |-> IF b[c].nan = 1 THEN 0 ELSE c,
           how |-> IF d = 0 THEN "exact" ELSE IF d < Interp THEN "near" ELSE "edge"]

\* Fuzzy tracking watchdog.  The two medians bracket the component-wise one.
Sorted(q) == SortSeq(q, LAMBDA a, b : a < b)
FuzzyVerdict(ref, f) ==
  LET q == Sorted(ref)
      d1 == Abs(f - q[15])
      d2 == Abs(f - q[16])
      lo == Min(d1, d2)
      hi == Max(d1, d2)
  IN IF lo >= 14 THEN "fuzzy" ELSE IF hi <= 11 THEN "ok" ELSE "either"

\* ApplyCorrection of measurement m on state i.  hint: observed x after, resolves "either".
Correct(s, i, m, hint) ==
  LET o == s.buf[i]
      c == [o EXCEPT !.x = (3 * o.x + m.code) % HashMod, !.px = (3 * o.px + m.code) % HashMod,
                     !.v = o.v + m.dv, !.th = o.th + m.dth, !.f = o.f + m.df,
                     !.ba = IF s.fixb = 1 THEN o.ba ELSE o.ba + m.dba,
                     !.bw = IF s.fixb = 1 THEN o.bw ELSE o.bw + m.dbw]
      verdict == IF s.pos <= RefWindow THEN "ok" ELSE FuzzyVerdict(s.ref, c.f)
      fz == verdict = "fuzzy" \/ (verdict = "either" /\ hint = o.x /\ c.x # o.x)
      slot == IF s.pos <= RefWindow THEN s.pos ELSE s.pos - RefWindow
      n == IF fz THEN [c EXCEPT !.ba = o.ba, !.bw = o.bw, !.x = o.x, !.f = o.f] ELSE c
      ref2 == IF fz THEN s.ref ELSE IF slot > Len(s.ref) THEN Append(s.ref, c.f) ELSE [s.ref EXCEPT ![slot] = c.f]
      pos2 == IF fz THEN s.pos ELSE IF s.pos < RefWindow + RefWindow THEN s.pos + 1 ELSE RefWindow + 1
  IN [s |-> [s EXCEPT !.buf[i] = n, !.ref = ref2, !.pos = pos2, !.tP = o.t],
      chk |-> <<[k |-> "chk", xa |-> c.x, xb |-> o.x]>>,
      tag |-> IF fz THEN {"fuzzy"} ELSE IF s.pos > RefWindow THEN {"watched"} ELSE {}]

Gated(m) == m.gate = 1 /\ Abs(m.res) > m.thr

\* Apply() of the measurement object.  kind 2: returns without correcting anything.
ApplyMeas(s, i, m, hint) ==
  IF m.kind = 2 THEN [s |-> s, chk |-> <<>>, tag |-> {"noapply"}]
  ELSE IF Gated(m) THEN [s |-> s, chk |-> <<>>, tag |-> {"gated"}]
  ELSE LET r == Correct(s, i, m, hint) IN
       [r EXCEPT !.tag = r.tag \union (IF m.gate = 1 THEN {"gatepass"} ELSE {})]

\* Replay: apply measurement number j and all later ones, re-propagating in between.
\* cur: time of the state up to which the buffer is up to date (0: nothing applied yet).
RECURSIVE Replay(_, _, _, _, _)
Replay(s, j, cur, hints, out) ==
  IF j > Len(s.meas) THEN [s |-> s, cur |-> cur, out |-> out]
  ELSE
  LET m == s.meas[j]
      g == ClosestState(s, m.t)
  IN IF g.i = 0 /\ cur = 0 THEN [s |-> g.s, cur |-> 0, out |-> [out EXCEPT !.tag = @ \union {"nostate"}]]
     ELSE
     LET found == g.i # 0
         s1 == IF found THEN [g.s EXCEPT !.tP = Min(@, g.s.buf[g.i].t)] ELSE g.s
         hint == IF hints = <<>> THEN -1 ELSE hints[1]
         a == IF found THEN ApplyMeas(s1, g.i, m, hint) ELSE [s |-> s1, chk |-> <<>>, tag |-> {"nostate"}]
         s2 == a.s
         curT == IF found THEN s2.buf[g.i].t ELSE cur
         ci == At(s2.buf, curT)
         end == IF j = Len(s.meas) THEN Len(s2.buf) + 1
                ELSE Min(UpperBound(s2.buf, s.meas[j + 1].t) + 1, Len(s2.buf) + 1)
         s3 == [s2 EXCEPT !.buf = Repropagate(s2.buf, ci, end)]
         lastDone == IF end - 1 > ci THEN s3.buf[end - 1].t ELSE curT
         ev == IF found THEN <<[m |-> m.id, b |-> s1.buf[g.i], a |-> s2.buf[g.i], how |-> g.how]>> ELSE <<>>
     IN Replay(s3, j + 1, lastDone, IF found /\ hints # <<>> THEN Tail(hints) ELSE hints,
               [app |-> out.app \o ev, chk |-> out.chk \o a.chk,
                tag |-> out.tag \union a.tag \union (IF found THEN {g.how} ELSE {})])

NoOut == [app |-> <<>>, pub |-> <<>>, tag |-> {}]
Only(s, tag) == [s |-> s, out |-> [NoOut EXCEPT !.tag = tag]]

AddMeasurement(s, m, hints) ==
  IF ~s.init \/ ~s.pred THEN Only(s, {"ignored"})
  ELSE IF m.t > Last(s.buf).t THEN Only([s EXCEPT !.pend = Append(@, m)], {"held"})
  ELSE IF m.t < s.buf[1].t THEN Only(s, {"tooold"})
  ELSE IF At(s.meas, m.t) # 0 THEN Only(s, {"sametime"})
  ELSE
  LET s1 == [s EXCEPT !.meas = Insert(@, m)]
      j == At(s1.meas, m.t)
      late == (IF m.t < Last(s.buf).t THEN {"late"} ELSE {"inorder"}) \union (IF m.t = s.buf[1].t THEN {"oldest"} ELSE {})
      before == IF j < Len(s1.meas) THEN {"outoforder"} ELSE {}
      r == Replay(s1, j, 0, hints, [app |-> <<>>, chk |-> <<>>, tag |-> late \union before])
  IN IF r.out.app = <<>> THEN [s |-> r.s, out |-> [app |-> <<>>, pub |-> <<>>, tag |-> r.out.tag]]
     ELSE LET s2 == PropP(r.s, Last(r.s.buf).t) IN
          [s |-> s2, out |-> [app |-> r.out.app,
                              pub |-> r.out.chk \o <<[k |-> "upd", s |-> Last(s2.buf)]>>,
                              tag |-> r.out.tag]]

HandlePending(s, hints) ==
  IF s.pend = <<>> THEN Only(s, {})
  ELSE LET r == AddMeasurement([s EXCEPT !.pend = Tail(@)], Head(s.pend), hints)
       IN [r EXCEPT !.out.tag = @ \union {"pending"}]

\* o: [t, a, w, k]  k: 0 reading a (relative to gravity), 1 reading above 50 m/s2, 2 not a number.
\* choice: the clean reading that takes the place of a spike.
ProcessIMU(s, o, choice, hints) ==
  IF ~s.init THEN Only(s, {"uninit"})
  ELSE
  LET last == s.buf[At(s.buf, s.tI)]
      d == o.t - last.t
  IN IF d <= BackJump /\ s.pred THEN Only([s EXCEPT !.init = FALSE, !.pred = FALSE], {"backjump"})
     ELSE
     LET a == IF o.k = 1 THEN choice ELSE o.a
         clean2 == IF o.k = 1 THEN s.clean ELSE <<last.am>> \o SubSeq(s.clean, 1, Min(3, Len(s.clean)))
         s0 == [s EXCEPT !.clean = clean2]
     IN IF ~s.pred /\ Abs(d) >= Gap
        THEN LET b == SelectSeq(s.buf, LAMBDA e : e.t # last.t) IN
             Only([s0 EXCEPT !.buf = Insert(b, [last EXCEPT !.t = o.t]), !.tI = o.t, !.tP = o.t], {"gap"})
        ELSE
        LET n == Propagate(last, [ZeroState EXCEPT !.t = o.t, !.am = a, !.wm = o.w, !.nan = IF o.k = 2 THEN 1 ELSE 0])
            dup == At(s.buf, o.t) # 0
            \* a state inserted in the past gets its covariance from its predecessor
            k == Less(s.buf, o.t)
            past == ~dup /\ o.t < s.tP /\ k >= 1
            n2 == IF past THEN [n EXCEPT !.px = s.buf[k].px + (o.t - s.buf[k].t)] ELSE n
            s1 == [s0 EXCEPT !.buf = Insert(@, n2), !.tI = o.t]
            s2 == PropPOne(s1)
            s3 == IF Len(s2.buf) > 3 THEN [s2 EXCEPT !.pred = TRUE] ELSE s2
            tags == (IF dup THEN {"dup"} ELSE {}) \union (IF ~dup /\ d < 0 THEN {"small-back"} ELSE {})
                    \union (IF o.k = 1 THEN {"spike"} ELSE {}) \union (IF o.k = 2 THEN {"nonfinite"} ELSE {})
                    \union (IF ~s.pred THEN {"warmup"} ELSE {}) \union (IF s2.init THEN {} ELSE {"nanreset"})
            pub == <<[k |-> "prop", s |-> n]>>
        IN IF ~s3.pred \/ ~s3.init
           THEN [s |-> (IF s3.init THEN s3 ELSE [s3 EXCEPT !.pend = IF @ = <<>> THEN @ ELSE Tail(@)]),
                 out |-> [app |-> <<>>, pub |-> pub, tag |-> tags]]
           ELSE LET r == HandlePending(s3, hints) IN
                [s |-> r.s, out |-> [app |-> r.out.app, pub |-> pub \o r.out.pub, tag |-> tags \union r.out.tag]]

\* o additionally: flag (already propagated), p, v, th.
ProcessExternal(s, o, choice, hints) ==
  IF ~s.init THEN Only(s, {"uninit"})
  ELSE
  LET last == Last(s.buf)
      d == o.t - last.t
      a == IF o.k = 1 THEN choice ELSE o.a
      s0 == [s EXCEPT !.cleanx = IF o.k = 1 THEN @ ELSE <<o.a>> \o SubSeq(@, 1, Min(3, Len(@)))]
  IN IF ~s.pred /\ Abs(d) >= GapExt
     THEN LET b == SelectSeq(s.buf, LAMBDA e : e.t # last.t) IN
          Only([s0 EXCEPT !.buf = Insert(b, [last EXCEPT !.t = o.t]), !.tI = o.t, !.tP = o.t], {"extgap"})
     ELSE
     LET c == [ZeroState EXCEPT !.t = o.t, !.am = a, !.wm = o.w]
         n0 == IF o.flag = 1
               THEN [c EXCEPT !.p = o.p % 65536, !.v = o.v, !.th = o.th,
                              !.ba = last.ba, !.bw = last.bw, !.x = last.x, !.f = last.f]
               ELSE Propagate(last, c)
         first == ~s.pred
         n == IF first THEN [n0 EXCEPT !.px = last.px] ELSE n0
         s1 == IF first THEN [s0 EXCEPT !.buf = <<n>>, !.meas = <<>>, !.pend = <<>>, !.tP = o.t, !.tI = o.t, !.pred = TRUE]
               ELSE [s0 EXCEPT !.buf = Insert(@, n), !.tI = o.t]
         s2 == [PropPOne(s1) EXCEPT !.pred = TRUE]
         r == HandlePending(s2, hints)
         tags == {IF o.flag = 1 THEN "adopt" ELSE "extprop"} \union (IF first THEN {"extfirst"} ELSE {})
                 \union (IF o.k = 1 THEN {"extspike"} ELSE {}) \union (IF At(s.buf, o.t) # 0 /\ ~first THEN {"extdup"} ELSE {})
     IN [s |-> r.s, out |-> [app |-> r.out.app, pub |-> <<[k |-> "prop", s |-> n]>> \o r.out.pub, tag |-> tags \union r.out.tag]]

\* The initial covariance, in units of 1/20000, row by row: the supplied one, or the built-in one: the symmetric part of a
\* constant matrix (in 1/10000) for the core states, 0.0001 on the diagonal of the others. Entry XX is field px.
CoreErr == 15
AllErr  == 19
BuiltInCore == <<<<166, 122, -15, 211, 74, 0, 12, -12, 1, 0, 0, 0, -3, -2, 0>>,
                 <<129, 508, -20, 179, 432, 6, 20, 4, -2, 0, 0, 0, 3, -2, 0>>,
                 <<-13, -9, 142, -27, 57, 79, 7, 7, 0, 0, 0, 0, -1, -4, -1>>,
                 <<210, 162, -26, 437, 83, -17, 16, -21, -14, 0, 0, 0, 3, -1, 0>>,
                 <<93, 461, 36, 153, 650, -16, 25, 13, 0, 0, 0, 0, 3, 2, 0>>,
                 <<0, 5, 80, -19, -21, 130, 1, 1, 0, 0, 0, 0, -3, 1, -1>>,
                 <<12, 24, 6, 17, 37, 1, 5, 0, 1, 0, 0, 0, 0, -1, 0>>,
                 <<-11, 8, 7, -23, 19, 1, 0, 5, -1, 0, 0, 0, 1, -1, 0>>,
                 <<1, -2, 0, -14, 1, 0, 0, -1, 6, 0, 0, 0, 0, 0, 0>>,
                 <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
                 <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
                 <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
                 <<-3, 3, -1, 3, 3, -3, 0, 1, 0, 0, 0, 0, 10, 0, 0>>,
                 <<-2, -2, -4, -1, 3, 1, -1, 0, 0, 0, 0, 0, 0, 10, 0>>,
                 <<0, 0, -1, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 1>>>>
SuppliedEntry(i, j) == IF i = j THEN 20 + i ELSE IF i = CoreErr \/ j = CoreErr THEN 0 ELSE ((i + j) % 4) - 1
BuiltInEntry(i, j) == IF i < CoreErr /\ j < CoreErr THEN BuiltInCore[i + 1][j + 1] + BuiltInCore[j + 1][i + 1]
                      ELSE IF i = j THEN 2 ELSE 0
InitialCov(supplied) == [k \in 1..(AllErr * AllErr) |->
  LET i == (k - 1) \div AllErr
      j == (k - 1) % AllErr
  IN IF i = CoreErr /\ j = CoreErr THEN 0
     ELSE CASE supplied = 0 -> BuiltInEntry(i, j) [] supplied = 3 -> 0 [] OTHER -> SuppliedEntry(i, j)]

\* o: [t, sens, am, wm, and optional values]
Initialise(s, o) ==
  LET st == [ZeroState EXCEPT !.t = o.t, !.am = IF o.sens = 1 THEN o.a ELSE o.z, !.wm = IF o.sens = 1 THEN o.w ELSE 0,
             !.x = IF o.hx = 1 THEN o.x ELSE 0, !.px = IF o.hp > 0 THEN o.px ELSE 0, !.v = IF o.hv = 1 THEN o.v ELSE 0,
             !.ba = IF o.hba = 1 THEN o.ba ELSE 0, !.bw = IF o.hbw = 1 THEN o.bw ELSE 0, !.f = IF o.hf = 1 THEN o.f ELSE 0]
      s2 == [s EXCEPT !.init = TRUE, !.pred = FALSE, !.buf = <<st>>, !.meas = <<>>, !.pend = <<>>, !.tP = o.t, !.tI = o.t,
                      !.ref = <<>>, !.pos = 1, !.inexact = FALSE]
  IN [s |-> s2, out |-> [app |-> <<>>, pub |-> <<[k |-> "init", s |-> st, cov |-> InitialCov(o.hp)]>>,
                         tag |-> {"init"} \union (IF s.init THEN {"reinit"} ELSE {})
                                 \union (IF s.pend # <<>> THEN {"dropspending"} ELSE {})]]

\* Public queries.
ClosestQuery(s, t) == LET g == ClosestState(s, t) IN
  [s |-> g.s, ret |-> IF g.i = 0 THEN [t |-> -1] ELSE g.s.buf[g.i], how |-> g.how]
PreviousMeasurement(s, t, sid) ==
  LET j == At(s.meas, t)
      c == {k \in 1..(j - 1) : s.meas[k].sid = sid}
  IN IF j = 0 \/ c = {} THEN -1 ELSE s.meas[CHOOSE k \in c : \A l \in c : l <= k].id

MatMul(a, b) == <<a[1] * b[1] + a[2] * b[3], a[1] * b[2] + a[2] * b[4],
                  a[3] * b[1] + a[4] * b[3], a[3] * b[2] + a[4] * b[4]>>
StepMat(t) == IF (t \div 2) % 2 = 1 THEN <<1, 1 + (t % 3), 0, 1>> ELSE <<1, 0, 1 + (t % 3), 1>>
RECURSIVE Accumulate(_, _, _)
Accumulate(b, i, j) == IF i >= j THEN <<1, 0, 0, 1>> ELSE MatMul(StepMat(b[j - 1].t), Accumulate(b, i, j - 1))

\* Clean-up: what may be discarded (strictly older than 60 s before the newest).
MayDrop(b, t) == Len(b) > 0 /\ t < Last(b).t - Keep

----------------------------------------------------------------------------
\* Declarative properties of a quiescent filter state (no algorithm in them).

SortedBuffers(s) == /\ \A i \in 1..(Len(s.buf) - 1) : s.buf[i].t < s.buf[i + 1].t
                    /\ \A i \in 1..(Len(s.meas) - 1) : s.meas[i].t < s.meas[i + 1].t

\* The state a buffered measurement belongs to, by definition (0: none).
Target(b, t) == LET c == Closest(b, t) IN IF Abs(b[c].t - t) < Interp THEN c
                ELSE IF Less(b, t) >= 1 /\ Less(b, t) < Len(b) THEN 0 ELSE c

\* Every state equals its predecessor propagated over the readings, followed by the corrections of
\* the measurements that belong to it, each exactly once, in time order; the covariance likewise.
RECURSIVE Corrections(_, _, _, _)
Corrections(s, st, ms, j) ==
  IF j > Len(ms) THEN st
  ELSE LET m == ms[j] IN
       Corrections(s, IF m.kind = 2 \/ Gated(m) THEN st
                      ELSE [st EXCEPT !.x = (3 * @ + m.code) % HashMod, !.px = (3 * @ + m.code) % HashMod,
                                      !.v = @ + m.dv, !.th = @ + m.dth, !.f = @ + m.df,
                                      !.ba = IF s.fixb = 1 THEN @ ELSE @ + m.dba,
                                      !.bw = IF s.fixb = 1 THEN @ ELSE @ + m.dbw], ms, j + 1)
Chronological(s) ==
  \A i \in 2..Len(s.buf) :
     LET q == Propagate(s.buf[i - 1], s.buf[i])
         ms == SelectSeq(s.meas, LAMBDA m : Target(s.buf, m.t) = i)
         base == [q EXCEPT !.px = s.buf[i - 1].px + (s.buf[i].t - s.buf[i - 1].t)]
         e == Corrections(s, base, ms, 1)
     IN IF s.buf[i].t <= s.tP THEN e = s.buf[i] ELSE [e EXCEPT !.px = 0] = [s.buf[i] EXCEPT !.px = 0]
\* ... and every accepted measurement belongs to some state, unless no state lies within 0.1 s.
EachHasTarget(s) ==
  \A j \in DOMAIN s.meas : s.meas[j].t >= s.buf[1].t =>
     LET c == Closest(s.buf, s.meas[j].t) IN
     Target(s.buf, s.meas[j].t) # 0 \/ Abs(s.buf[c].t - s.meas[j].t) >= TooFar
=============================================================================
