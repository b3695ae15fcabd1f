----------------------------- MODULE FramesTrace -----------------------------
\* Recorded calls of the real conversion code against Frames.
EXTENDS Frames, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES b, l, ref, ms, cov, tags, bad
vars == <<b, l, ref, ms, cov, tags, bad>>
A(x) == Angle(x[1], x[2])
M3(x) == [i \in 1..3 |-> [j \in 1..3 |-> x[3 * (i - 1) + j]]]
Cov6(x) == [i \in 1..6 |-> [j \in 1..6 |-> x[6 * (i - 1) + j]]]
RefN(o) == CASE o.op = "ref" -> Reference(A(o.lat), A(o.lon), o.h) [] o.op = "fresh" -> NoReference [] OTHER -> ref
MsN(o) == CASE o.op = "pair" -> Append(ms, [q1 |-> o.q1, t1 |-> o.t1, q2 |-> o.q2, t2 |-> o.t2]) [] o.op = "clear" -> <<>> [] OTHER -> ms
CovN(o) == IF o.op = "setcov" THEN SetBlock(cov, o.r, o.c, M3(o.m)) ELSE cov
L(ok, name) == IF ok THEN {} ELSE {name}
OnRef(o) == ref.set /\ o.op = "enu" /\ A(o.lat) = ref.lat /\ A(o.lon) = ref.lon
Labels(o) ==
  CASE o.op = "ecef" -> L(Near(Ecef(A(o.lat), A(o.lon), o.h), o.out, TolEcef), "ecef")
    [] o.op = "enu" -> L(Near(ToLocal(ref, Ecef(A(o.lat), A(o.lon), o.h)), o.out, TolLocal), "enu")
                       \union (IF OnRef(o) THEN L(Near(<<0, 0, 10 * (o.h - ref.h)>>, o.mm, 1), "on-reference") ELSE {})
    [] o.op = "local" -> L(Near(ToLocal(ref, o.x), o.out, TolLocal), "ecef-to-enu")
    [] o.op = "compute" ->
         IF Len(ms) < 2 THEN L(o.ret = 0, "too-few")
         ELSE LET s == TLCEval(Sums(ms))
                  k == IF o.scaleptr = 1 THEN o.scale ELSE MulDiv(10000, ScaleNum(s), ScaleDen(s))
              IN L(o.ret = 1, "refused")
                 \union (IF o.scaleptr = 1 THEN L(ScaleOk(s, k), "scale") ELSE {})
                 \union L(o.scaleptr = 0 \/ PositionOk(s, k, o.p), "position")
                 \union (IF o.condptr = 1 THEN L(ConditionOk(s, o.cond), "condition") ELSE {})
                 \union L(AttitudeOk(ms, o.q), "attitude")
    [] o.op = "setcov" -> L(Cov6(o.cov) = CovN(o), "covariance")
    [] o.op = "getcov" -> L(M3(o.m) = GetBlock(cov, o.r, o.c), "block")
    [] o.op = "msg" -> L(o.pback = o.p /\ o.qback = o.q /\ o.pmsg = o.p /\ o.qmsg = o.q, "message")
    [] o.op = "quat" -> L(o.cross = CrossV(o.v, o.w) /\ o.skew = Flat(Skew(o.v)), "skew")
                        \union L(o.ham = QMul(Pure(o.v), o.q), "hamilton") \union L(o.jpl = QMul(o.q, Pure(o.v)), "jpl")
                        \union L(o.xi = QMul(o.q, Pure(o.v)) /\ o.xiq = <<0, 0, 0>>, "xi")
                        \union L(SmallAngleOk(o.v, o.small), "small-angle")
    [] OTHER -> {}
Tag(o) ==
  CASE o.op \in {"ecef", "ref"} -> {o.op}
    [] o.op = "enu" -> {IF ~ref.set THEN "enu-noref" ELSE IF OnRef(o) THEN "enu-onref" ELSE "enu"}
    [] o.op = "compute" -> {IF Len(ms) < 2 THEN "too-few" ELSE IF Det(Sums(ms)) = 0 THEN "degenerate" ELSE "determined"}
                           \union (IF Len(ms) >= 2 /\ ~SameOffset(ms) THEN {"averaged"} ELSE {}) \union (IF Len(ms) >= 10 THEN {"many-pairs"} ELSE {})
    [] o.op = "setcov" -> {IF o.r = o.c THEN "block-diagonal" ELSE "block-off-diagonal"}
    [] o.op = "quat" -> {IF Dot(o.v, o.v) < 256 THEN "small" ELSE "large"}
    [] OTHER -> {o.op}
Good(o) == /\ o.op = "pair" => /\ \A i \in 1..3 : o.t1[i] % N2(o.q1) = 0 /\ o.t2[i] % N2(o.q1) = 0
                               /\ 36 % (N2(o.q1) * N2(o.q2)) = 0
           /\ o.op \in {"ref", "enu", "ecef"} => IsAngle(A(o.lat)) /\ IsAngle(A(o.lon))
Report(kind, x) == PrintT("@@" \o kind \o " " \o ToJson(x))
TraceInit == b \in 1..Len(Traces) /\ l = 1 /\ ref = NoReference /\ ms = <<>> /\ cov = NoCov /\ tags = {} /\ bad = FALSE
Step == /\ l <= Len(Traces[b].ops) /\ ~bad
        /\ LET o == Traces[b].ops[l]
               lab == IF Good(o) THEN Labels(o) ELSE {"BADINPUT"}
           IN IF lab # {}
              THEN /\ Report("MIS", [id |-> Traces[b].id, at |-> l, op |-> o.op, tags |-> Tag(o), labels |-> lab, past |-> tags])
                   /\ bad' = TRUE /\ UNCHANGED <<b, l, ref, ms, cov, tags>>
              ELSE /\ l' = l + 1 /\ ref' = RefN(o) /\ ms' = MsN(o) /\ cov' = CovN(o)
                   /\ tags' = tags \union Tag(o) /\ UNCHANGED <<b, bad>>
Finish == /\ l = Len(Traces[b].ops) + 1 /\ ~bad /\ l' = l + 1
          /\ Report("END", [id |-> Traces[b].id, n |-> l - 1, tags |-> tags])
          /\ UNCHANGED <<b, ref, ms, cov, tags, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
\* off-diagonal blocks never disagree with their opposite
Inv == \A i \in 1..3 : \A j \in 4..6 : cov[i][j] = cov[j][i]
=============================================================================
