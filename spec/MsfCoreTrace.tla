---------------------------- MODULE MsfCoreTrace ----------------------------
(***************************************************************************)
(* Checks recorded executions of the real filter core against MsfCore.     *)
(* One initial state per recorded behaviour; every recorded call is one    *)
(* step, which must be explained by the specification's operator for that  *)
(* call.  At the first call it does not explain, the names of the          *)
(* disagreeing observations are printed and the behaviour ends.            *)
(***************************************************************************)
EXTENDS MsfCore, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
ThTol == 60
VARIABLES b, l, s, tags, taint, stale, bad   \* stale: updates since old states / measurements should have gone
vars == <<b, l, s, tags, taint, stale, bad>>

Range(q) == {q[i] : i \in DOMAIN q}
RecFields == {"am", "wm", "v", "p", "ba", "bw", "x", "f"}
\* names of the fields in which the recorded state disagrees with the specified one
Differ(st, r, withP) ==
  IF "nan" \in DOMAIN r THEN IF st.nan = 1 /\ r.t = st.t THEN {} ELSE {"nan"}
  ELSE IF st.nan = 1 THEN {"nan"}
  ELSE {k \in RecFields : st[k] # r[k]} \union (IF r.t # st.t THEN {"t"} ELSE {})
       \union (IF Abs(st.th - r.th) > ThTol THEN {"th"} ELSE {})
       \union (IF r.nx # 0 THEN {"nx"} ELSE {}) \union (IF r.of # 0 THEN {"off"} ELSE {})
       \union (IF withP /\ r.px # st.px THEN {"px"} ELSE {})
Pre(p, S) == {p \o k : k \in S}
SameState(x, y) == /\ \A k \in RecFields \union {"t", "nan"} : x[k] = y[k]
                   /\ Abs(x.th - y.th) <= ThTol

AppDiff(exp, obs) ==
  IF Len(exp) # Len(obs) THEN {"app:count"}
  ELSE UNION {IF exp[i].m # obs[i].m THEN {"app:order"}
              ELSE Pre("app:before:", Differ(exp[i].b, obs[i].b, TRUE))
                   \union Pre("app:after:", Differ(exp[i].a, obs[i].a, TRUE)) : i \in DOMAIN exp}
PubDiff(exp, obs) ==
  IF [i \in DOMAIN exp |-> exp[i].k] # [i \in DOMAIN obs |-> obs[i].k]
  THEN {"pub:kinds"}
  ELSE UNION {IF exp[i].k = "chk" THEN (IF exp[i].xa # obs[i].xa \/ exp[i].xb # obs[i].xb THEN {"pub:chk"} ELSE {})
              ELSE Pre("pub:" \o exp[i].k \o ":", Differ(exp[i].s, obs[i].s, exp[i].k # "prop")
                   \union (IF exp[i].k = "init" /\ exp[i].cov # obs[i].cov THEN {"cov"} ELSE {})) : i \in DOMAIN exp}

\* Changes of the buffer: what the step changed according to the specification against what was seen.
ChgDiff(old, new, dropped, obs) ==
  LET seen == {obs[i].t : i \in DOMAIN obs}
      changed == {i \in DOMAIN new : IF i <= Len(old) /\ old[i] = new[i] THEN FALSE ELSE LET j == At(old, new[i].t) IN IF j = 0 THEN TRUE ELSE ~SameState(old[j], new[i])}
  IN UNION {LET j == At(new, obs[i].t) IN IF j = 0 THEN {"chg:extra"} ELSE Pre("chg:", Differ(new[j], obs[i], FALSE)) : i \in DOMAIN obs}
     \union (IF \E i \in changed : new[i].t \notin seen /\ new[i].t \notin dropped THEN {"chg:missing"} ELSE {})

\* Judge one step.  r: [s, out] from the specification, o: the recorded call.
Judge(r, o) ==
  LET old == s
      new == r.s
      obsDel == Range(o.del)
      expDel == Times(old.buf) \ Times(new.buf)
      extra == obsDel \ expDel
      obsM == Range(o.mdel)
      oldM == {old.meas[i].id : i \in DOMAIN old.meas} \union {old.pend[i].id : i \in DOMAIN old.pend}
      newMeas == {new.meas[i].id : i \in DOMAIN new.meas}
      newPend == {new.pend[i].id : i \in DOMAIN new.pend}
      badM == {i \in DOMAIN new.meas : new.meas[i].id \in obsM /\ ~MayDrop(new.meas, new.meas[i].t)}
      nanStep == "nanreset" \in r.out.tag
      labels ==
        AppDiff(r.out.app, o.app)
        \union (IF nanStep THEN {} ELSE PubDiff(r.out.pub, o.pub))
        \union (IF nanStep THEN {} ELSE ChgDiff(old.buf, new.buf, obsDel, o.chg))
        \union (IF \E t \in extra : ~MayDrop(new.buf, t) THEN {"del:recent"} ELSE {})
        \union (IF expDel \ obsDel # {} THEN {"del:missing"} ELSE {})
        \union (IF badM # {} THEN {"mdel:recent"} ELSE {})
        \union (IF newPend \intersect obsM # {} THEN {"mdel:held"} ELSE {})
        \union (IF (oldM \ (newMeas \union newPend)) \ obsM # {} THEN {"mdel:kept"} ELSE {})
      tidy == [new EXCEPT !.buf = SelectSeq(@, LAMBDA e : e.t \notin extra),
                          !.meas = SelectSeq(@, LAMBDA m : m.id \notin obsM)]
      Fresh(q) == Len(q) = 0 \/ q[1].t >= Last(q).t - Keep - 2048
      Count(q, n) == IF Fresh(q) THEN 0 ELSE IF r.out.app # <<>> THEN n + 1 ELSE n
      stale2 == <<Count(tidy.buf, stale[1]), Count(tidy.meas, stale[2])>>
      tg == r.out.tag \union (IF extra # {} THEN {"cleanup"} ELSE {}) \union (IF stale2 # <<0, 0>> THEN {"stale"} ELSE {})
  IN [s |-> tidy, tag |-> tg, stale |-> stale2,
      labels |-> labels \union (IF Max(stale2[1], stale2[2]) > 260 THEN {"unbounded"} ELSE {})]

Hints(o) == [i \in DOMAIN o.app |-> IF "nan" \in DOMAIN o.app[i].a THEN -1 ELSE o.app[i].a.x]
\* which clean reading took the place of a spike
Choice(o, st, cand) == LET e == {o.pub[i] : i \in {j \in DOMAIN o.pub : o.pub[j].k = "prop"}} IN
  IF e = {} THEN cand[1] ELSE LET q == CHOOSE q \in e : TRUE IN
  IF "nan" \in DOMAIN q.s THEN cand[1] ELSE IF q.s.am \in Range(cand) THEN q.s.am ELSE cand[1]

DoStep(o) ==
  CASE o.op = "init" -> Judge(Initialise(s, o), o)
    [] o.op = "imu" -> LET cand == IF s.init THEN s.clean \o <<s.buf[At(s.buf, s.tI)].am>> ELSE s.clean IN
                       Judge(ProcessIMU(s, o, Choice(o, s, cand), Hints(o)), o)
    [] o.op = "ext" -> LET cand == IF s.init THEN s.cleanx \o <<Last(s.buf).am>> ELSE s.cleanx IN
                       Judge(ProcessExternal(s, o, Choice(o, s, cand), Hints(o)), o)
    [] o.op = "meas" -> Judge(AddMeasurement(s, o.meas, Hints(o)), o)
    [] o.op = "fix" -> Judge([s |-> [s EXCEPT !.fixb = o.v], out |-> [NoOut EXCEPT !.tag = {"fix"}]], o)
    [] o.op = "near" -> LET q == ClosestQuery(s, o.t)
                            j == Judge([s |-> q.s, out |-> [NoOut EXCEPT !.tag = {"query", q.how}]], o)
                            d == IF q.ret.t = -1 \/ o.ret.t = -1 THEN (IF q.ret.t = o.ret.t THEN {} ELSE {"ret:near:t"})
                                 ELSE Pre("ret:near:", Differ(q.ret, o.ret, TRUE))
                        IN [j EXCEPT !.labels = @ \union d]
    [] o.op = "prev" -> LET j == Judge(Only(s, {"prev"}), o)
                            e == PreviousMeasurement(s, o.t, o.sid) IN
                        [j EXCEPT !.labels = @ \union (IF o.ret = e THEN {} ELSE {"ret:prev"}),
                                  !.tag = @ \union {IF e = -1 THEN "prevnone" ELSE "prevfound"}]
    [] o.op = "acc" -> LET i1 == At(s.buf, o.t1)
                           i2 == At(s.buf, o.t2)
                           e == IF i1 = 0 \/ i2 = 0 THEN <<>> ELSE Accumulate(s.buf, i1, i2)
                           j == Judge(Only(s, {"acc"}), o) IN
                       [j EXCEPT !.labels = @ \union (IF o.ret = e THEN {} ELSE {"ret:acc"})]
    [] OTHER -> Judge(Only(s, {"unknown"}), o)

Taints == {"small-back", "dup", "extdup", "adopt", "fuzzy", "nonfinite", "gap", "extgap", "fix", "query", "nostate"}
Report(kind, x) == PrintT("@@" \o kind \o " " \o ToJson(x))
TraceInit == /\ b \in 1..Len(Traces) /\ l = 1 /\ s = NewFilter /\ tags = {} /\ taint = FALSE /\ stale = <<0, 0>> /\ bad = FALSE
Finish == /\ l = Len(Traces[b].ops) + 1 /\ ~bad
          /\ l' = l + 1
          /\ LET ideal == ~taint /\ s.init /\ s.pred /\ ~s.inexact
                 okk == ~ideal \/ (SortedBuffers(s) /\ Chronological(s) /\ EachHasTarget(s))
             IN /\ IF okk THEN TRUE ELSE Report("MIS", [id |-> Traces[b].id, at |-> l - 1, op |-> "end", tags |-> tags, labels |-> {"ideal"}, past |-> tags])
                /\ Report("END", [id |-> Traces[b].id, n |-> l - 1, tags |-> tags, ideal |-> ideal, inexact |-> s.inexact])
          /\ UNCHANGED <<b, s, tags, taint, stale, bad>>
Step == /\ l <= Len(Traces[b].ops) /\ ~bad
        /\ LET o == Traces[b].ops[l]
               j == DoStep(o)
               stop == j.s.inexact
           IN IF stop
              THEN /\ Report("END", [id |-> Traces[b].id, n |-> l, tags |-> tags, ideal |-> FALSE, inexact |-> TRUE])
                   /\ bad' = TRUE /\ UNCHANGED <<b, l, s, tags, taint, stale>>
              ELSE IF j.labels # {}
              THEN /\ Report("MIS", [id |-> Traces[b].id, at |-> l, op |-> o.op, tags |-> j.tag, labels |-> j.labels, past |-> tags])
                   /\ bad' = TRUE /\ UNCHANGED <<b, l, s, tags, taint, stale>>
              ELSE /\ l' = l + 1 /\ s' = j.s /\ tags' = tags \union j.tag
                   /\ taint' = IF "init" \in j.tag THEN FALSE ELSE (taint \/ (j.tag \intersect Taints) # {})
                   /\ stale' = j.stale
                   /\ UNCHANGED <<b, bad>>
TraceNext == Step \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_vars
Ordered == s.init => SortedBuffers(s)
=============================================================================
