------------------------------ MODULE AppReal ------------------------------
(* Recorded updates of the real applications with the real filter core (C12, C23).
   Every measurement update reports, per group of sensor states, whether the published
   values differ from the previous ones: ch = 0 equal, 1 equal up to rounding, 2 changed.
   Groups: pose applications L, p_ic, q_ic, p_wv, q_wv; pose_pressure b_p; position,
   spherical and position_pose p_ip; then b_w and b_a. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES b, l, s, tags, bad
vars == <<b, l, s, tags, bad>>

HasPose(app) == app \in {1, 4, 5}
HasPip(app) == app \in {2, 3, 5}
NPose(app) == IF HasPose(app) THEN 5 ELSE 0
Groups(app) == NPose(app) + (IF app = 4 THEN 1 ELSE 0) + (IF HasPip(app) THEN 1 ELSE 0) + 2
PipAt(app) == NPose(app) + 1
Name(app, i) == IF i > Groups(app) - 2 THEN "bias" ELSE IF HasPose(app) /\ i <= 5 THEN << "scale", "p_ic", "q_ic", "p_wv", "q_wv" >>[i] ELSE IF app = 4 THEN "b_p" ELSE "p_ip"
\* groups an update by this sensor may not touch / must touch (it observes them directly)
Fixed(c, st, op) ==
  (IF op = "pose" THEN {i \in 1..5 : st.fx[i] = 1} ELSE {})
  \union (IF op \in {"pos", "ang", "dist"} /\ st.fxp = 1 THEN {PipAt(c.app)} ELSE {})
  \union (IF st.fixb = 1 THEN {Groups(c.app) - 1, Groups(c.app)} ELSE {})
Direct(c, st, op) ==
  (IF op = "pose" THEN {i \in 1..5 : st.fx[i] = 0} ELSE {})
  \union (IF op = "pos" /\ st.fxp = 0 THEN {PipAt(c.app)} ELSE {})
  \union (IF op = "press" THEN {6} ELSE {})
Of(o, k) == SelectSeq(o.ev, LAMBDA e : e.k = k)
UpdLabels(c, o, e) ==
  {"C12:" \o Name(c.app, i) : i \in {i \in Fixed(c, s, o.op) : e.ch[i] = 2}}
  \union {"C12:" \o Name(c.app, i) \o "-stuck" : i \in {i \in Direct(c, s, o.op) : e.ch[i] = 0 /\ o.odd = 0}}
  \union (IF e.fin = 0 THEN {"C23:finite"} ELSE {})
  \union (IF HasPose(c.app) /\ e.neg = 1 THEN {"C23:negative"} ELSE {})
SanLabels(e) == IF e.neg = 1 /\ e.L # 100000 THEN {"C23:replace"} ELSE IF e.neg = 0 /\ e.same = 0 THEN {"C23:altered"} ELSE {}
Labels(c, o) ==
  UNION ({UpdLabels(c, o, Of(o, "upd")[i]) : i \in DOMAIN Of(o, "upd")} \union {SanLabels(Of(o, "san")[i]) : i \in DOMAIN Of(o, "san")})
  \* every correction of a pose application is checked before it is published
  \union (IF HasPose(c.app) /\ Len(Of(o, "upd")) > Len(Of(o, "san")) THEN {"C23:unchecked"} ELSE {})
Next1(o) == CASE o.op = "cfg" -> [s EXCEPT !.fx = o.fx, !.fxp = o.fxp]
              [] o.op = "core" -> [s EXCEPT !.fixb = o.want[1]]
              [] OTHER -> s
Tag(c, o) == (IF Of(o, "upd") = <<>> THEN (IF o.op \in {"pose", "pos", "press", "ang", "dist"} THEN {o.op \o "-none"} ELSE {})
              ELSE {o.op \o "-update"} \union {"fixed-" \o Name(c.app, i) : i \in Fixed(c, s, o.op)} \union {"free-" \o Name(c.app, i) : i \in Direct(c, s, o.op)})
             \union (IF \E i \in DOMAIN Of(o, "san") : Of(o, "san")[i].neg = 1 THEN {"scale-negative"} ELSE {})
Report(kind, x) == PrintT("@@" \o kind \o " " \o ToJson(x))
TraceInit == b \in 1..Len(Traces) /\ l = 1 /\ s = [fx |-> <<0, 0, 0, 0, 0>>, fxp |-> 0, fixb |-> 0] /\ tags = {} /\ bad = FALSE
Step == /\ l <= Len(Traces[b].ops) /\ ~bad
        /\ LET o == Traces[b].ops[l]
               c == Traces[b]
               lab == Labels(c, o)
           IN IF lab # {}
              THEN /\ Report("MIS", [id |-> Traces[b].id, at |-> l, op |-> o.op, tags |-> Tag(c, o), labels |-> lab, past |-> tags])
                   /\ bad' = TRUE /\ UNCHANGED <<b, l, s, tags>>
              ELSE l' = l + 1 /\ s' = Next1(o) /\ tags' = tags \union Tag(c, o) /\ UNCHANGED <<b, bad>>
Finish == /\ l = Len(Traces[b].ops) + 1 /\ ~bad /\ l' = l + 1
          /\ Report("END", [id |-> Traces[b].id, n |-> l - 1, tags |-> tags])
          /\ UNCHANGED <<b, s, tags, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
=============================================================================
