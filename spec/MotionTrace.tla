----------------------------- MODULE MotionTrace -----------------------------
\* Recorded runs of the real filter core, moving in three dimensions, against Motion.
EXTENDS Motion, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES b, l, buf, cor, real, org, tags, bad
\* cor: corrections by state time; real: times of true readings; org: since when uncertainty grows
vars == <<b, l, buf, cor, real, org, tags, bad>>
Range(q) == {q[i] : i \in DOMAIN q}
Restrict(f, S) == [x \in (DOMAIN f) \intersect S |-> f[x]]
RECURSIVE Merge(_, _, _)
\* the buffer after the recorded changes: old states (not deleted, not replaced) and the recorded ones, by time
Merge(old, chg, out) ==
  IF old = <<>> THEN out \o chg ELSE IF chg = <<>> THEN out \o old
  ELSE IF Head(old).t < Head(chg).t THEN Merge(Tail(old), chg, Append(out, Head(old))) ELSE Merge(old, Tail(chg), Append(out, Head(chg)))
New(o) == LET gone == Range(o.del) \union {o.chg[i].t : i \in DOMAIN o.chg}
          IN Merge(SelectSeq(IF o.op = "init" THEN <<>> ELSE buf, LAMBDA e : e.t \notin gone), SelectSeq(o.chg, LAMBDA e : TRUE), <<>>)
CorN(o) == LET base == IF o.op = "init" THEN <<>> ELSE cor
               T == {o.app[i].t : i \in DOMAIN o.app}
           IN [t \in (DOMAIN base) \union T |-> IF t \in T THEN LET i == CHOOSE i \in DOMAIN o.app : o.app[i].t = t /\ \A j \in DOMAIN o.app : o.app[j].t = t => j <= i
                                                                  IN [b |-> o.app[i].b, a |-> o.app[i].a, m |-> o.app[i].m] ELSE base[t]]
RealN(o) == (IF o.op = "init" THEN {} ELSE real) \union (IF o.op \in {"imu", "ext", "init"} THEN {o.t} ELSE {})
Pre(p, S) == {p \o k : k \in S}
Find(q, t) == IF \E i \in DOMAIN q : q[i].t = t THEN CHOOSE i \in DOMAIN q : q[i].t = t ELSE 0
Exact(n, o) == /\ \A i \in 1..3 : n.v[i] = o.v[i] * 256 /\ n.p[i] = o.p[i] * 4096
               /\ Max3(Apart(o.q, n.q)) <= 3
\* every pair of neighbours one of which changed
Chain(o, nb, nc) ==
  LET seen == {o.chg[i].t : i \in DOMAIN o.chg}
  IN UNION {IF nb[i].t \notin seen /\ nb[i - 1].t \notin seen THEN {}
            ELSE IF o.op = "ext" /\ o.flag = 1 /\ nb[i].t = o.t THEN {}
            \* corrected where it stood: it was judged (or adopted) before
            ELSE IF nb[i].t \in DOMAIN nc /\ nb[i - 1].t \notin seen /\ Find(buf, nb[i].t) # 0 /\ nc[nb[i].t].b = buf[Find(buf, nb[i].t)]
                 THEN (IF nc[nb[i].t].a = nb[i] THEN {} ELSE {"kept"})
            ELSE IF nb[i].t \in DOMAIN nc
                 THEN Pre("step:", StepDiffers(nb[i - 1], nc[nb[i].t].b)) \union (IF nc[nb[i].t].a = nb[i] THEN {} ELSE {"kept"})
                 ELSE Pre("step:", StepDiffers(nb[i - 1], nb[i])) : i \in 2..Len(nb)}
Lines(nb, seen, rl) == UNION {IF nb[i].t \in rl \/ nb[i].t \notin seen \/ OnLine(nb[i - 1], nb[i], nb[i + 1]) THEN {} ELSE {"interpolated"} : i \in 2..(Len(nb) - 1)}
\* the first state adopted after an initialisation takes its uncertainty over as it is
OrgN(o) == IF o.op = "init" THEN [t |-> o.t, fresh |-> TRUE]
           ELSE IF o.op = "ext" /\ org.fresh THEN [t |-> o.t, fresh |-> FALSE]
           ELSE IF o.op = "imu" THEN [org EXCEPT !.fresh = FALSE] ELSE org
Noises(o, og) == UNION {Pre("noise:", NoiseDiffers(Traces[b].noise, o.app[i].t - og.t, o.app[i].pn)) : i \in DOMAIN o.app}
Labels(o, nb, nc, rl) ==
  Chain(o, nb, nc) \union Lines(nb, {o.chg[i].t : i \in DOMAIN o.chg}, rl)
  \union UNION {Pre("correct:", CorrectDiffers(o.app[i].b, o.app[i].a, o.app[i].m)) : i \in DOMAIN o.app}
  \union UNION {IF Abs(o.app[i].t - o.app[i].m.t) <= 1 THEN {} ELSE {"where"} : i \in DOMAIN o.app}
  \union (IF o.op \in {"imu", "ext", "init"} THEN
            LET i == Find(nb, o.t) IN
            IF i = 0 THEN {"missing"}
            ELSE (IF nb[i].am = o.a /\ nb[i].wm = o.w THEN {} ELSE {"readings"})
                 \union (IF o.op = "init" /\ ~(Exact(nb[i], o) /\ nb[i].ba = o.ba /\ nb[i].bw = o.bw /\ nb[i].x = o.x) THEN {"start"} ELSE {})
                 \union (IF o.op = "ext" /\ o.flag = 1 /\ o.app = <<>> /\ ~Exact(nb[i], o) THEN {"adopt"} ELSE {})
                 \union (IF o.op = "ext" /\ o.flag = 1 /\ o.app = <<>> /\ buf # <<>> /\ ~Carried(buf[Len(buf)], nb[i]) THEN {"adopt:carried"} ELSE {})
          ELSE {})
Good(nb) == \A i \in 2..Len(nb) : Moderate(nb[i - 1], nb[i])
Tag(o, nb, rl) ==
  {o.op} \union (IF Len(o.app) > 1 THEN {"replay"} ELSE IF Len(o.app) = 1 THEN {"applied"} ELSE {})
  \union (IF \E i \in DOMAIN o.chg : o.chg[i].t \notin rl THEN {"interpolating"} ELSE {})
  \union (IF Cardinality({o.chg[i].t : i \in DOMAIN o.chg}) > 2 THEN {"repropagating"} ELSE {})
Report(kind, x) == PrintT("@@" \o kind \o " " \o ToJson(x))
TraceInit == b \in 1..Len(Traces) /\ l = 1 /\ buf = <<>> /\ cor = <<>> /\ real = {} /\ org = [t |-> 0, fresh |-> FALSE] /\ tags = {} /\ bad = FALSE
Step == /\ l <= Len(Traces[b].ops) /\ ~bad
        /\ LET o == Traces[b].ops[l]
               nb == New(o)
               nc == Restrict(CorN(o), {nb[i].t : i \in DOMAIN nb})
               rl == RealN(o)
               og == OrgN(o)
               lab == Labels(o, nb, nc, rl) \union Noises(o, og)
               lab2 == IF lab = {} \/ Good(nb) THEN lab ELSE {"BADINPUT"}
               tg == Tag(o, nb, rl)
           IN IF lab2 = {"BADINPUT"}
              THEN /\ Report("END", [id |-> Traces[b].id, n |-> l - 1, tags |-> tags \union {"toofast"}])
                   /\ bad' = TRUE /\ UNCHANGED <<b, l, buf, cor, real, org, tags>>
              ELSE IF lab2 # {}
              THEN /\ Report("MIS", [id |-> Traces[b].id, at |-> l, op |-> o.op, tags |-> tg, labels |-> lab2, past |-> tags])
                   /\ bad' = TRUE /\ UNCHANGED <<b, l, buf, cor, real, org, tags>>
              ELSE l' = l + 1 /\ buf' = nb /\ cor' = nc /\ real' = rl /\ org' = og /\ tags' = tags \union tg /\ UNCHANGED <<b, bad>>
Finish == /\ l = Len(Traces[b].ops) + 1 /\ ~bad /\ l' = l + 1
          /\ Report("END", [id |-> Traces[b].id, n |-> l - 1, tags |-> tags])
          /\ UNCHANGED <<b, buf, cor, real, org, tags, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
Ordered == \A i \in 1..(Len(buf) - 1) : buf[i].t < buf[i + 1].t
=============================================================================
