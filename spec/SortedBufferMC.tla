---------------------------- MODULE SortedBufferMC ----------------------------
(***************************************************************************)
(* Exhaustive check over all histories of a small buffer: the sequence     *)
(* algorithms which MsfCore uses for its buffers (binary search, insertion *)
(* position, neighbour selection) refine the declarative SortedBuffer.     *)
(***************************************************************************)
EXTENDS SortedBuffer
C == INSTANCE MsfCore
CONSTANTS TMax, IdMax
VARIABLES S, q, next
vars == <<S, q, next>>
Init == S = {} /\ q = <<>> /\ next = 1
InsertAct(t) == /\ next <= IdMax /\ next' = next + 1
                /\ S' = Put(S, [t |-> t, id |-> next]) /\ q' = C!Insert(q, [t |-> t, id |-> next])
RedateAct(a, z) == /\ S' = Redate(S, a, z) /\ UNCHANGED next
                   /\ LET i == C!At(q, a) IN
                      q' = IF i = 0 THEN q ELSE C!Insert(SelectSeq(q, LAMBDA e : e.t # a), [q[i] EXCEPT !.t = z])
CleanAct(age) == /\ S # {} /\ UNCHANGED next
                 /\ LET old == {i \in DOMAIN q : C!MayDrop(q, q[i].t)} IN TRUE
                 /\ S' = S \ TooOld(S, age) /\ q' = SelectSeq(q, LAMBDA e : ~(e.t < C!Last(q).t - age))
Next == \/ \E t \in 1..TMax : InsertAct(t)
        \/ \E a, z \in 1..TMax : RedateAct(a, z)
        \/ \E age \in 0..TMax : CleanAct(age)
        \/ S' = {} /\ q' = <<>> /\ UNCHANGED next
Spec == Init /\ [][Next]_vars
IdOf(i) == IF i \in DOMAIN q THEN q[i].id ELSE NONE
Refines == /\ {q[i] : i \in DOMAIN q} = S /\ Len(q) = Cardinality(S)
           /\ \A i \in 1..(Len(q) - 1) : q[i].t < q[i + 1].t
           /\ \A t \in 0..(TMax + 1) :
                /\ IdOf(C!At(q, t)) = Exact(S, t)
                /\ IdOf(C!LowerBound(q, t)) = AtOrAfter(S, t)
                /\ IdOf(C!UpperBound(q, t)) = StrictlyAfter(S, t)
                /\ IdOf(C!Less(q, t)) = Before(S, t)
                /\ (S # {} => IdOf(C!Closest(q, t)) = Nearest(S, t))
                /\ \A age \in 0..TMax : CleanOK(S, age, S \ TooOld(S, age))
=============================================================================
