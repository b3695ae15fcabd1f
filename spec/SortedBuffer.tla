---------------------------- MODULE SortedBuffer ----------------------------
(***************************************************************************)
(* The time-ordered buffer (SortedContainer) as a set of elements [t, id]  *)
(* with distinct times.  Every look-up is defined declaratively; NONE is   *)
(* the explicit "invalid" answer.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
NONE == -1
IdAt(S, t) == IF \E e \in S : e.t = t THEN (CHOOSE e \in S : e.t = t).id ELSE NONE
Earliest(S) == IF S = {} THEN NONE ELSE (CHOOSE e \in S : \A g \in S : e.t <= g.t).id
Latest(S) == IF S = {} THEN NONE ELSE (CHOOSE e \in S : \A g \in S : e.t >= g.t).id
Dist(e, t) == IF e.t < t THEN t - e.t ELSE e.t - t
\* look-ups
Exact(S, t) == IdAt(S, t)
StrictlyAfter(S, t) == Earliest({e \in S : e.t > t})
AtOrAfter(S, t) == Earliest({e \in S : e.t >= t})
Before(S, t) == Latest({e \in S : e.t < t})
BeforeOrFirst(S, t) == IF Before(S, t) # NONE THEN Before(S, t) ELSE Earliest(S)
Nearest(S, t) ==   \* the earlier one of two equally close elements
  IF S = {} THEN NONE
  ELSE (CHOOSE e \in S : \A g \in S : Dist(e, t) < Dist(g, t) \/ (Dist(e, t) = Dist(g, t) /\ e.t <= g.t)).id
\* updates
Put(S, e) == IF \E g \in S : g.t = e.t THEN S ELSE S \union {e}
Redate(S, a, z) == IF IdAt(S, a) = NONE THEN S ELSE Put({e \in S : e.t # a}, [t |-> z, id |-> IdAt(S, a)])
RedateAnswer(S, a, z) == IF IdAt(S, a) = NONE THEN Nearest(S, a) ELSE IdAt(Redate(S, a, z), z)
\* Clean-up by age: only elements older than the age may go, the oldest first; at most one such element may stay.
NewestTime(S) == (CHOOSE e \in S : \A g \in S : e.t >= g.t).t
TooOld(S, age) == IF S = {} THEN {} ELSE {e \in S : e.t < NewestTime(S) - age}
CleanOK(S, age, S2) == /\ S2 \subseteq S
                       /\ S \ S2 \subseteq TooOld(S, age)
                       /\ Cardinality(TooOld(S, age) \intersect S2) <= 1
                       /\ \A e \in S \ S2 : \A g \in S2 : e.t < g.t
=============================================================================
