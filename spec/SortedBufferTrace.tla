-------------------------- MODULE SortedBufferTrace --------------------------
\* Recorded executions of the real container against SortedBuffer.
EXTENDS SortedBuffer, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES b, l, S, tags, bad
vars == <<b, l, S, tags, bad>>
SeqOf(T) == T
Content(o) == {[t |-> o.content[i][1], id |-> o.content[i][2]] : i \in DOMAIN o.content}
Ascending(o) == \A i \in 1..(Len(o.content) - 1) : o.content[i][1] < o.content[i + 1][1]
\* the look-ups made after every call, at the probe times of that call
ProbeDiff(T, q) ==
  (IF q.at # Exact(T, q.t) THEN {"at"} ELSE {})
  \union (IF q.near # Nearest(T, q.t) THEN {"closest"} ELSE {})
  \union (IF q.bef # BeforeOrFirst(T, q.t) THEN {"before"} ELSE {})
  \union (IF q.aft # StrictlyAfter(T, q.t) THEN {"after"} ELSE {})
  \union (IF q.iat # AtOrAfter(T, q.t) THEN {"it:at"} ELSE {})
  \union (IF q.iatp # AtOrAfter(T, q.t) THEN {"it:atvalue"} ELSE {})
  \union (IF q.ibef # Before(T, q.t) THEN {"it:before"} ELSE {})
  \union (IF q.iaft # StrictlyAfter(T, q.t) THEN {"it:after"} ELSE {})
  \union (IF q.inear # Nearest(T, q.t) THEN {"it:closest"} ELSE {})
Next1(o) == CASE o.op = "ins" -> Put(S, [t |-> o.t, id |-> o.id])
              [] o.op = "upd" -> Redate(S, o.a, o.z)
              [] o.op = "clr" -> {}
              [] o.op = "old" -> IF CleanOK(S, o.age, Content(o)) THEN Content(o) ELSE S
              [] OTHER -> S
Answer(o, T) == CASE o.op = "ins" -> IdAt(T, o.t)
                  [] o.op = "upd" -> RedateAnswer(S, o.a, o.z)
                  [] OTHER -> NONE
Labels(o, T) ==
  (IF Content(o) # T \/ Len(o.content) # Cardinality(T) THEN {"content"} ELSE {})
  \union (IF ~Ascending(o) THEN {"order"} ELSE {})
  \union (IF o.op = "old" /\ ~CleanOK(S, o.age, Content(o)) THEN {"cleanup"} ELSE {})
  \union (IF o.ret # Answer(o, T) THEN {"answer"} ELSE {})
  \union (IF o.size # Cardinality(T) THEN {"size"} ELSE {})
  \union (IF o.first # Earliest(T) THEN {"first"} ELSE {})
  \union (IF o.last # Latest(T) THEN {"last"} ELSE {})
  \union (IF o.begin # Earliest(T) THEN {"it:begin"} ELSE {})
  \union UNION {ProbeDiff(T, o.q[i]) : i \in DOMAIN o.q}
Tag(o) == {o.op, CASE Cardinality(S) = 0 -> "on-empty" [] Cardinality(S) = 1 -> "on-one" [] Cardinality(S) = 2 -> "on-two" [] OTHER -> "on-many"}
          \union (IF o.op = "ins" /\ IdAt(S, o.t) # NONE THEN {"occupied"} ELSE {})
          \union (IF o.op = "upd" /\ IdAt(S, o.a) = NONE THEN {"redate-missing"} ELSE {})
          \union (IF o.op = "upd" /\ o.a # o.z /\ IdAt(S, o.z) # NONE THEN {"redate-occupied"} ELSE {})
          \union (IF o.op = "old" /\ Content(o) # S THEN {"cleaned"} ELSE {})
Report(kind, x) == PrintT("@@" \o kind \o " " \o ToJson(x))
TraceInit == b \in 1..Len(Traces) /\ l = 1 /\ S = {} /\ tags = {} /\ bad = FALSE
Step == /\ l <= Len(Traces[b].ops) /\ ~bad
        /\ LET o == Traces[b].ops[l]
               T == Next1(o)
               lab == Labels(o, T)
           IN IF lab # {}
              THEN /\ Report("MIS", [id |-> Traces[b].id, at |-> l, op |-> o.op, tags |-> Tag(o), labels |-> lab, past |-> tags])
                   /\ bad' = TRUE /\ UNCHANGED <<b, l, S, tags>>
              ELSE l' = l + 1 /\ S' = T /\ tags' = tags \union Tag(o) /\ UNCHANGED <<b, bad>>
Finish == /\ l = Len(Traces[b].ops) + 1 /\ ~bad /\ l' = l + 1
          /\ Report("END", [id |-> Traces[b].id, n |-> l - 1, tags |-> tags])
          /\ UNCHANGED <<b, S, tags, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
=============================================================================
