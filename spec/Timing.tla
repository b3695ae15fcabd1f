------------------------------- MODULE Timing -------------------------------
(***************************************************************************)
(* The timing library: records (sequences of intervals) named by tags, and *)
(* timers which add intervals to a record.  Statistics are defined from    *)
(* the recorded sequence.  Time unit: 1 us.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
WindowLen == 50
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE q[1] + SumSeq(Tail(q))
SumSq(q) == SumSeq([i \in DOMAIN q |-> q[i] * q[i]])
LastN(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
MaxOf(q) == CHOOSE x \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : q[i] <= x
MinOf(q) == CHOOSE x \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : q[i] >= x
AbsT(x) == IF x < 0 THEN -x ELSE x
\* names of the statistics in r that do not describe the recorded sequence q
\* (mean, rmean in 1/1000 units, var in square units, rounded)
StatDiff(q, r, win) ==
  IF Len(q) = 0 THEN (IF r.n = 0 /\ r.sum = 0 THEN {} ELSE {"n"})
  ELSE LET w == LastN(q, win)
           n == Len(w)
       IN (IF r.n # Len(q) THEN {"n"} ELSE {})
          \union (IF r.sum # SumSeq(q) THEN {"total"} ELSE {})
          \union (IF AbsT(r.mean * Len(q) - 1000 * SumSeq(q)) > Len(q) THEN {"mean"} ELSE {})
          \union (IF AbsT(r.rmean * n - 1000 * SumSeq(w)) > n THEN {"rolling-mean"} ELSE {})
          \union (IF AbsT(r.var * n * n - (n * SumSq(w) - SumSeq(w) * SumSeq(w))) > n * n THEN {"variance"} ELSE {})
          \union (IF r.min # MinOf(q) THEN {"min"} ELSE {})
          \union (IF r.max # MaxOf(q) THEN {"max"} ELSE {})

\* state: recs: Seq(Seq(Int)), tags: set of [tag, k], timers: set of [id, run, since, k], now
NewTiming == [recs |-> <<>>, tags |-> {}, timers |-> {}, now |-> 0]
Known(s, t) == \E x \in s.tags : x.tag = t
KeyOf(s, t) == (CHOOSE x \in s.tags : x.tag = t).k
Touch(s, t) == IF Known(s, t) THEN s
               ELSE [s EXCEPT !.recs = Append(@, <<>>), !.tags = @ \union {[tag |-> t, k |-> Len(s.recs) + 1]}]
Timer(s, i) == CHOOSE x \in s.timers : x.id = i
HasTimer(s, i) == \E x \in s.timers : x.id = i
SetTimer(s, x) == [s EXCEPT !.timers = {y \in @ : y.id # x.id} \union {x}]
StartT(s, i) == SetTimer(s, [Timer(s, i) EXCEPT !.run = TRUE, !.since = s.now])
StopT(s, i) == LET x == Timer(s, i) IN
  IF ~x.run THEN s ELSE [SetTimer(s, [x EXCEPT !.run = FALSE]) EXCEPT !.recs[x.k] = Append(@, s.now - x.since)]
NewT(s, i, t, stopped) ==
  LET s1 == Touch(s, t)
      s2 == SetTimer(s1, [id |-> i, run |-> ~stopped, since |-> s.now, k |-> KeyOf(s1, t)])
  \* replacing a timer of the same name destroys the old one after the new one was made
  IN IF HasTimer(s, i) THEN LET s3 == StopT([s1 EXCEPT !.timers = s.timers], i) IN [s3 EXCEPT !.timers = s2.timers] ELSE s2
DeleteT(s, i) == IF HasTimer(s, i) THEN LET s1 == StopT(s, i) IN [s1 EXCEPT !.timers = {x \in @ : x.id # i}] ELSE s
ResetT(s) == [s EXCEPT !.tags = {}]
\* every tag names one record, and no two tags the same one
WellFormed(s) == /\ \A x, y \in s.tags : (x.tag = y.tag) = (x.k = y.k)
                 /\ \A x \in s.tags : x.k \in DOMAIN s.recs
                 /\ \A x \in s.timers : x.k \in DOMAIN s.recs
=============================================================================
