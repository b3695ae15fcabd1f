------------------------------ MODULE PendQueue ------------------------------
(***************************************************************************)
(* The queue of measurements that wait for IMU data, alone: time only      *)
(* through the offset of each measurement from the newest buffered state.  *)
(* Every reading lowers the offsets and hands the head of the queue back   *)
(* to AddMeasurement, which applies it or appends it again.  Shows, for    *)
(* all schedules, that no held measurement is starved (liveness) and how   *)
(* long it can wait after its time has been reached (Bound).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, MaxOffset
VARIABLES queue, status, arrived, overdue
vars == <<queue, status, arrived, overdue>>
Ids == 1..N
Init == queue = <<>> /\ status = [i \in Ids |-> "none"] /\ arrived = 0 /\ overdue = [i \in Ids |-> 0]
Arrive == /\ arrived < N /\ arrived' = arrived + 1
          /\ \E d \in 0..MaxOffset :
               IF d > 0 THEN /\ queue' = Append(queue, [id |-> arrived + 1, d |-> d])
                             /\ status' = [status EXCEPT ![arrived + 1] = "held"]
               ELSE /\ status' = [status EXCEPT ![arrived + 1] = "applied"] /\ UNCHANGED queue
          /\ UNCHANGED overdue
Reading == LET q == [i \in DOMAIN queue |-> [queue[i] EXCEPT !.d = IF @ > 0 THEN @ - 1 ELSE 0]]
               od == [i \in Ids |-> IF \E k \in DOMAIN q : q[k].id = i /\ q[k].d = 0 THEN overdue[i] + 1 ELSE overdue[i]]
           IN /\ UNCHANGED arrived
              /\ IF queue = <<>> THEN UNCHANGED <<queue, status, overdue>>
                 ELSE LET h == q[1] IN
                      IF h.d = 0 THEN queue' = Tail(q) /\ status' = [status EXCEPT ![h.id] = "applied"] /\ overdue' = od
                      ELSE queue' = Append(Tail(q), h) /\ UNCHANGED status /\ overdue' = od
Next == Arrive \/ Reading
Spec == Init /\ [][Next]_vars /\ WF_vars(Reading)
NoneLost == \A i \in Ids : (status[i] = "held") = (\E k \in DOMAIN queue : queue[k].id = i)
NoneTwice == \A k, l \in DOMAIN queue : k # l => queue[k].id # queue[l].id
\* an overdue measurement is reached after at most as many readings as there can be others waiting
Bound == \A i \in Ids : overdue[i] <= N
Delivered == \A i \in Ids : (status[i] = "held") ~> (status[i] = "applied")
Stable == [][\A i \in Ids : status[i] = "applied" => status'[i] = "applied"]_vars
=============================================================================
