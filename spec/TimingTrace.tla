----------------------------- MODULE TimingTrace -----------------------------
\* Recorded executions of the real timing library against Timing.
EXTENDS Timing, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES b, l, s, a3, a4, tags, bad
vars == <<b, l, s, a3, a4, tags, bad>>
Next1(o) == CASE o.op = "adv" -> [s EXCEPT !.now = @ + o.d]
              [] o.op = "new" -> NewT(s, o.id, o.tag, o.stopped = 1)
              [] o.op = "start" -> StartT(s, o.id)
              [] o.op = "stop" -> StopT(s, o.id)
              [] o.op = "del" -> DeleteT(s, o.id)
              [] o.op = "reset" -> ResetT(s)
              [] o.op = "touch" -> Touch(s, o.tag)
              [] OTHER -> s
Range(q) == {q[i] : i \in DOMAIN q}
Labels(o, n, q3, q4) ==
  (IF {r.tag : r \in Range(o.recs)} # {x.tag : x \in n.tags} \/ Len(o.recs) # Cardinality(n.tags) THEN {"tags"}
   ELSE UNION {StatDiff(n.recs[KeyOf(n, r.tag)], r, WindowLen) : r \in Range(o.recs)})
  \union (IF o.agree # 1 THEN {"handle"} ELSE {})
  \union (IF o.op = "touch" /\ o.ret # 1 THEN {"touch"} ELSE {})
  \union (IF Range(o.running) # {x.id : x \in {y \in n.timers : y.run}} THEN {"running"} ELSE {})
  \union (IF {<<r.tag, r.n>> : r \in Range(o.printed)} # {<<x.tag, Len(n.recs[x.k])>> : x \in n.tags} THEN {"printed"} ELSE {})
  \union StatDiff(q3, o.a3, 3)
  \union (StatDiff(q4, o.a4, 4) \ {"mean", "rolling-mean", "variance"})
Tag(o, n) == {o.op} \union (IF \E i \in DOMAIN n.recs : Len(n.recs[i]) > WindowLen THEN {"beyond-window"} ELSE {})
             \union (IF o.op = "stop" /\ ~Timer(s, o.id).run THEN {"stop-stopped"} ELSE {})
             \union (IF o.op = "start" /\ Timer(s, o.id).run THEN {"restart"} ELSE {})
             \union (IF Cardinality(n.tags) > 2 THEN {"several-tags"} ELSE {})
             \union (IF o.op = "reset" /\ \E x \in s.timers : x.run THEN {"reset-running"} ELSE {})
             \union (IF Len(a3) > 3 THEN {"beyond-3"} ELSE {})
Report(kind, x) == PrintT("@@" \o kind \o " " \o ToJson(x))
TraceInit == b \in 1..Len(Traces) /\ l = 1 /\ s = NewTiming /\ a3 = <<>> /\ a4 = <<>> /\ tags = {} /\ bad = FALSE
Step == /\ l <= Len(Traces[b].ops) /\ ~bad
        /\ LET o == Traces[b].ops[l]
               n == Next1(o)
               q3 == IF o.op = "add3" THEN Append(a3, o.x) ELSE a3
               q4 == IF o.op = "add4" THEN Append(a4, o.x) ELSE a4
               lab == Labels(o, n, q3, q4)
           IN IF lab # {}
              THEN /\ Report("MIS", [id |-> Traces[b].id, at |-> l, op |-> o.op, tags |-> Tag(o, n), labels |-> lab, past |-> tags])
                   /\ bad' = TRUE /\ UNCHANGED <<b, l, s, a3, a4, tags>>
              ELSE l' = l + 1 /\ s' = n /\ a3' = q3 /\ a4' = q4 /\ tags' = tags \union Tag(o, n) /\ UNCHANGED <<b, bad>>
Finish == /\ l = Len(Traces[b].ops) + 1 /\ ~bad /\ l' = l + 1
          /\ Report("END", [id |-> Traces[b].id, n |-> l - 1, tags |-> tags])
          /\ UNCHANGED <<b, s, a3, a4, tags, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
Inv == WellFormed(s)
=============================================================================
