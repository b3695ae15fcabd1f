---------------------------- MODULE DistortTrace ----------------------------
\* Recorded calls of the real distorter, pose handler and distortion node against Distort.
EXTENDS Distort, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES b, l, d, h, conf, tags, bad
vars == <<b, l, d, h, conf, tags, bad>>
NoCfg == [pos |-> <<0, 0, 0>>, att |-> <<0, 0, 0>>, scale |-> 0]
Cfg(o) == [pos |-> o.pos, att |-> o.att, scale |-> o.scale]
DN(o) == CASE o.op = "make" -> NewDistorter(Cfg(o))
           [] o.op = "dpos" -> DriftPos(d, o.dt) [] o.op = "datt" -> DriftAtt(d, o.dt) [] o.op = "dboth" -> DriftAtt(DriftPos(d, o.dt), o.dt) [] OTHER -> d
HN(o) == CASE o.op = "handler" -> NewHandler(Cfg(o)) [] o.op = "hpose" -> DriftHandler(h, o.t) [] OTHER -> h
ConfN(o) == IF o.op = "conf" THEN [pose |-> o.pose, place |-> o.place] ELSE conf
L(ok, name) == IF ok THEN {} ELSE {name}
\* x: a unit quaternion in thousandths, q: integers
Same(x, q) == \A i \in 1..4 : \A j \in 1..4 : Abs(x[i] * x[j] * N2(q) - 1000000 * q[i] * q[j]) <= 2500 * N2(q)
Labels(o, nd, nh) ==
  CASE o.op = "dpos" -> L(o.out = OutPos(nd, o.p), "position")
    [] o.op = "datt" -> L(Same(o.x, OutAtt(nd, o.q)), "attitude")
    [] o.op = "dboth" -> L(o.out = OutPos(nd, o.p), "position") \union L(Same(o.x, OutAtt(nd, o.q)), "attitude")
    [] o.op = "inspect" -> L(o.seen = 0 \/ (o.mean = <<o.pos, o.att, o.scale>> /\ o.sd = <<o.spos, o.satt, o.sscale>>), "parameters")
    [] o.op = "hpose" -> L(o.n = 1, "lost") \union (IF o.n = 1 THEN L(o.out = (IF h.last = -1 THEN Scale(4096, o.p) ELSE OutPos(nh.d, o.p)), "reading")
                                                     \union L(Same(o.x, IF h.last = -1 THEN o.q ELSE OutAtt(nh.d, o.q)), "reading-attitude") ELSE {})
    [] o.op = "plain" -> L(o.n = 1 /\ o.out = Scale(4096, o.p) /\ Same(o.x, o.q), "plain")
    [] o.op = "conf" -> {}
    [] o.op = "send" -> L(o.heard = 1, "deaf") \union L(o.pubs = Through(conf, o.kind, o.x), "gate")
    [] OTHER -> {}
Good(o) == /\ o.op \in {"datt", "dboth"} => Turnable(Scale(o.dt, d.cfg.att))
           /\ o.op = "hpose" /\ h.last # -1 => Turnable(Scale(o.t - h.last, h.d.cfg.att))
Tag(o) == CASE o.op = "send" -> {"send-" \o o.kind \o (IF Lets(conf, o.kind) THEN "" ELSE "-stopped")}
            [] o.op = "hpose" -> {IF h.last = -1 THEN "first-reading" ELSE "drifting"}
            [] o.op \in {"dpos", "dboth"} -> {o.op} \union (IF d.scale # 64 THEN {"scaled"} ELSE {})
            [] o.op = "datt" -> {o.op} \union (IF d.att # Id4 THEN {"turned"} ELSE {})
            [] OTHER -> {o.op}
Report(kind, x) == PrintT("@@" \o kind \o " " \o ToJson(x))
TraceInit == b \in 1..Len(Traces) /\ l = 1 /\ d = NewDistorter(NoCfg) /\ h = NewHandler(NoCfg) /\ conf = [pose |-> 1, place |-> 1] /\ tags = {} /\ bad = FALSE
Step == /\ l <= Len(Traces[b].ops) /\ ~bad
        /\ LET o == Traces[b].ops[l]
               lab == IF Good(o) THEN Labels(o, DN(o), HN(o)) ELSE {"BADINPUT"}
           IN IF lab # {}
              THEN /\ Report("MIS", [id |-> Traces[b].id, at |-> l, op |-> o.op, tags |-> Tag(o), labels |-> lab, past |-> tags])
                   /\ bad' = TRUE /\ UNCHANGED <<b, l, d, h, conf, tags>>
              ELSE l' = l + 1 /\ d' = DN(o) /\ h' = HN(o) /\ conf' = ConfN(o) /\ tags' = tags \union Tag(o) /\ UNCHANGED <<b, bad>>
Finish == /\ l = Len(Traces[b].ops) + 1 /\ ~bad /\ l' = l + 1
          /\ Report("END", [id |-> Traces[b].id, n |-> l - 1, tags |-> tags])
          /\ UNCHANGED <<b, d, h, conf, tags, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
Inv == N2(d.att) \in {1, 4} /\ N2(h.d.att) \in {1, 4}
=============================================================================
