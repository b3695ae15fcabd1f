----------------------------- MODULE MeasTrace -----------------------------
\* Recorded applications of readings of the real sensors against MeasModels.
EXTENDS MeasModels, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES b, l, tags, bad
vars == <<b, l, tags, bad>>
Lab(c, x) == IF c THEN {} ELSE {x}
SetOf(s) == {s[i] : i \in DOMAIN s}
Names(o) == {o.names[i][1] : i \in DOMAIN o.names}
Total(s) == LET RECURSIVE go(_) go(k) == IF k > Len(s) THEN 0 ELSE s[k][3] + go(k + 1) IN go(1)
\* the error state is partitioned into one run of entries per state variable, in the order of the state
LayoutLabels(o) == Lab(/\ \A i \in DOMAIN o.names : o.names[i][2] >= 0
                       /\ \A i, j \in DOMAIN o.names : i < j => o.names[i][2] + o.names[i][3] <= o.names[j][2]
                       /\ o.names[Len(o.names)][2] + o.names[Len(o.names)][3] = Total(o.names), "layout")
\* blocks that differ
Diff(rec, want) == {x \in DOMAIN want : rec[x] # want[x]}
HLabels(rec, want, pre) == {pre \o x : x \in Diff(rec, want)}
CovLabels(c, names, F, pre) ==
  Lab(SetOf(c.zero) = Cleared(names, F), pre \o "cleared") \union Lab(c.other = <<>>, pre \o "covariance")
Quiet(o) == Lab(o.calls = 0, "not-applied") \union Lab(o.cov.zero = <<>> /\ o.cov.other = <<>>, "covariance")
            \union (IF "covold" \in DOMAIN o THEN Lab(o.covold.zero = <<>> /\ o.covold.other = <<>>, "covariance") ELSE {})
Common(o, rel) == Lab(o.calls = 1, "applied") \union Lab(o.moved = 0, "moved")
                  \union (IF o.calls = 1 THEN Lab(o.rel = rel, "kind") \union Lab(o.same = 1, "state") \union Lab(o.R = NoiseOf(o), "noise") ELSE {})
PoseLabels(o, names) ==
  LET F == SetOf(o.fx)
      want(s) == Full(Fix(PoseJacobian(s, o.kp, o.ka), F), names, 7)
      res(s) == PoseResidual(s, o.z, o.zq, o.kp)
  IN IF AttError(o.s, o.zq)[1] # o.kw THEN {"BADINPUT"}
     ELSE Common(o, 0) \union (IF o.calls # 1 THEN {} ELSE
       CovLabels(o.cov, names, F, "") \union HLabels(o.H, want(o.s), "H-") \union Lab(o.r66 = 1, "noise")
       \union Lab([i \in 1..3 |-> o.r[i]] = [i \in 1..3 |-> res(o.s)[i]], "r-position") \union Lab([i \in 4..6 |-> o.r[i]] = [i \in 4..6 |-> res(o.s)[i]], "r-attitude")
       \union Lab(Len(o.r) = 7 /\ o.r[7] = <<0>>, "r-unused"))
RelPoseLabels(o, names) ==
  LET F == SetOf(o.fx)
      want(s) == Full(Fix(PoseJacobian(s, o.kp, o.ka), F), names, 7)
      res == RelPoseResidual(o.so, o.s, o.zo, o.z, o.zqo, o.zq, o.kp)
  IN IF RelAttError(o.so, o.s, o.zqo, o.zq)[1] # o.kw THEN {"BADINPUT"}
     ELSE IF o.prev # 2 \/ o.oldok = 0 THEN Quiet(o)
     ELSE Common(o, 1) \union Lab(SetOf(o.askm) = {o.t} /\ o.asksensor = o.sensor, "previous") \union Lab(SetOf(o.asks) = {o.to}, "old-state")
       \union (IF o.calls # 1 \/ o.rel # 1 THEN {} ELSE
       CovLabels(o.cov, names, F, "") \union CovLabels(o.covold, names, F, "old-") \union Lab(o.r66 = 1, "noise")
       \union HLabels(o.H, want(o.s), "H-") \union HLabels(o.Ho, Minus1(want(o.so)), "Hold-")
       \union Lab([i \in 1..3 |-> o.r[i]] = [i \in 1..3 |-> res[i]], "r-position") \union Lab([i \in 4..6 |-> o.r[i]] = [i \in 4..6 |-> res[i]], "r-attitude")
       \union Lab(Len(o.r) = 7 /\ o.r[7] = <<0>>, "r-unused"))
Simple(o, names, F, H, rows, r) ==
  Common(o, 0) \union (IF o.calls # 1 THEN {} ELSE
     CovLabels(o.cov, names, F, "") \union HLabels(o.H, Full(Fix(H, F), names, rows), "H-") \union Lab(o.r = r, "r"))
AngleLabels(o, names, F) ==
  LET u == Target(o.s) IN
  IF ~TargetOk(o.s) \/ o.rho * o.rho # u[1] * u[1] + u[2] * u[2] \/ o.rad * o.rad # o.rho * o.rho + u[3] * u[3] THEN {"BADINPUT"}
  ELSE Common(o, 0) \union (IF o.calls # 1 THEN {} ELSE
     CovLabels(o.cov, names, F, "") \union HLabels(o.H, Full(Fix(AngleJacobian(o.s), F), names, 2), "H-")
     \union Lab(o.ang[1] = u[3] /\ o.ang[2] = o.rho /\ o.ang[5] \in 0..3141593, "r-inclination")
     \union Lab(o.ang[3] = u[1] /\ o.ang[4] = u[2], "r-azimuth") \union Lab(Abs(o.ang[6]) <= 3141593, "r-wrapped"))
DistLabels(o, names, F) ==
  LET u == Target(o.s) IN
  IF ~TargetOk(o.s) \/ o.rad * o.rad # u[1] * u[1] + u[2] * u[2] + u[3] * u[3] THEN {"BADINPUT"}
  ELSE Simple(o, names, F, DistJacobian(o.s), 1, << <<o.z[3] - o.rad>> >>)
OpLabels(o, names) ==
  LET F == SetOf(o.fx) \intersect names
  IN CASE o.op = "pose" -> IF o.abs = 1 THEN PoseLabels(o, names) ELSE RelPoseLabels(o, names)
       [] o.op = "pressure" -> Simple(o, names, {}, PressJacobian, 1, PressResidual(o.s, o.z))
       [] o.abs = 0 -> Quiet(o)                                    \* relative readings of the other sensors are not applied
       [] o.op = "position" -> Simple(o, names, F, PosJacobian(o.s), 3, PosResidual(o.s, o.z))
       [] o.op = "angle" -> AngleLabels(o, names, F)
       [] OTHER -> DistLabels(o, names, F)
Labels(o) == IF o.op = "start" THEN LayoutLabels(o) ELSE OpLabels(o, Names(Traces[b].ops[1]))
Tag(o) == IF o.op = "start" THEN {"start"} ELSE
  {o.op, IF o.abs = 1 THEN "absolute" ELSE "relative"} \union {"fixed-" \o x : x \in SetOf(o.fx)} \union (IF o.fc = 1 THEN {"noise-configured"} ELSE {"noise-given"})
  \union (IF o.op = "pose" /\ o.abs = 0 THEN (IF o.prev # 2 \/ o.oldok = 0 THEN {"no-predecessor"} ELSE {"pair"}) ELSE {})
  \union (IF o.op = "angle" THEN LET u == Target(o.s) IN {"x" \o ToString(IF u[1] < 0 THEN -1 ELSE IF u[1] > 0 THEN 1 ELSE 0) \o "y" \o ToString(IF u[2] < 0 THEN -1 ELSE IF u[2] > 0 THEN 1 ELSE 0)} ELSE {})
Report(kind, x) == PrintT("@@" \o kind \o " " \o ToJson(x))
TraceInit == b \in 1..Len(Traces) /\ l = 1 /\ tags = {} /\ bad = FALSE
Step == /\ l <= Len(Traces[b].ops) /\ ~bad
        /\ LET o == Traces[b].ops[l]
               lab == Labels(o)
           IN IF lab # {}
              THEN /\ Report("MIS", [id |-> Traces[b].id, at |-> l, op |-> o.op, tags |-> Tag(o), labels |-> lab, past |-> tags])
                   /\ bad' = TRUE /\ UNCHANGED <<b, l, tags>>
              ELSE l' = l + 1 /\ tags' = tags \union Tag(o) /\ UNCHANGED <<b, bad>>
Finish == /\ l = Len(Traces[b].ops) + 1 /\ ~bad /\ l' = l + 1
          /\ Report("END", [id |-> Traces[b].id, n |-> l - 1, tags |-> tags])
          /\ UNCHANGED <<b, tags, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
=============================================================================
