------------------------------ MODULE AppTrace ------------------------------
\* Recorded executions of the real applications of msf_updates against Managers and Outputs.
EXTENDS Outputs, Json, IOUtils, FiniteSets
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES b, l, s, ls, tags, bad
vars == <<b, l, s, ls, tags, bad>>

Prop(o) == CASE o.op = "pose" -> "C18" [] o.op \in {"pos", "nav"} -> "C19" [] o.op = "press" -> "C20" [] o.op \in {"ang", "dist", "angq"} -> "C21"
             [] o.op \in {"imu", "ext"} -> "C25" [] o.op \in {"cfg", "scale", "height", "reset"} -> "C22" [] o.op \in {"qaux", "core"} -> "C30"
             [] o.op = "sanity" -> "C23" [] OTHER -> "C26"
CoreEv(o) == SelectSeq(o.ev, LAMBDA e : e.k \in {"meas", "imu", "ext", "init"})
Pubs(o) == SelectSeq(o.ev, LAMBDA e : e.k = "pub")
Tfs(o) == SelectSeq(o.ev, LAMBDA e : e.k = "tf")
Range(q) == {q[i] : i \in DOMAIN q}
Diff(e, x) == {f \in DOMAIN e : ~(f \in DOMAIN x /\ x[f] = e[f])}
EventLabels(pr, exp, obs) ==
  IF Len(exp) # Len(obs) THEN {pr \o ":count"}
  ELSE UNION {{pr \o ":" \o f : f \in Diff(exp[i], obs[i])} \union (IF "fx" \in Diff(exp[i], obs[i]) THEN {"C12:fixed"} ELSE {}) : i \in DOMAIN exp}
\* publications caused by initialisation itself
InitPubOk(e, i) == /\ e.topic = "msf_core/correction" /\ e.flag = FlagInit /\ e.h.t = i.t /\ e.im = 0 /\ Len(e.d) = 16
                   /\ SubSeq(e.d, 1, 6) = V3(i.p) \o V3(i.v) /\ SubSeq(e.d, 11, 16) = V3(i.bw) \o V3(i.ba)
PubLabels(c, o, exp) ==
  LET ps == Pubs(o)  ts == Tfs(o) IN
  IF o.op \in {"pinit", "pprop", "pupd"}
  THEN LET want == ExpectTopics(c, ls, o)
           got == {e.topic : e \in Range(ps)}
           wrong == {e.topic : e \in {x \in Range(ps) : x.topic \in want /\ ~PubOk(c, s, o, x)}}
           lab(t) == IF t = "msf_core/correction" THEN "C24:" \o t ELSE "C26:" \o t
       IN {lab(t) : t \in (want \ got) \union (got \ want) \union wrong}
          \union (IF Len(ps) # Cardinality(got) THEN {"C26:twice", "C24:twice"} ELSE {})
          \union (IF o.op = "pupd" THEN (IF Len(ts) # 1 \/ ~TfOk(c, s, o, ts[1]) THEN {"C26:tf"} ELSE {})
                  ELSE IF ts # <<>> THEN {"C26:tf"} ELSE {})
  ELSE LET is == SelectSeq(exp, LAMBDA e : e.k = "init") IN
       (IF Len(ps) # Len(is) \/ \E i \in DOMAIN is : ~InitPubOk(ps[i], is[i]) THEN {"C24:initial"} ELSE {})
       \union (IF ts # <<>> THEN {"C26:tf"} ELSE {})
Special(c, o) ==
  CASE o.op = "press" ->
         LET n == PressNext(s.pr, o) IN
         (IF o.last # << n.last >> THEN {"C20:last"} ELSE {}) \union (IF o.avg # << PressSum(n) >> THEN {"C20:average"} ELSE {})
    [] o.op = "nav" -> LET es == CoreEv(o) IN IF Len(es) = 1 /\ ~NavOk(IF o.hd = 0 THEN s.g ELSE s.g2, o, es[1].mm) THEN {"C19:fix"} ELSE {}
    [] o.op \in {"scale", "height"} -> IF o.ret # ServiceRet(c, s, o) THEN {"C22:answer"} ELSE {}
    [] o.op = "qaux" -> IF o.q # QAux(c, s, o.dt) THEN {"C30:noise"} ELSE {}
    [] o.op = "core" -> IF o.got # o.want THEN {"C30:core"} ELSE {}
    [] o.op = "sanity" -> IF HasPose(c.app) /\ o.L # Sane(o.v) THEN {"C23:scale"} ELSE {}
    [] o.op = "reset" -> IF HasPose(c.app) /\ o.L # 1024 THEN {"C22:reset"} ELSE {}
    [] OTHER -> {}
Delivered(o) == o.op \in {"pose", "pos", "nav", "press", "ang", "dist", "imu", "ext"}
Labels(c, o) ==
  LET exp == Expect(c, s, o) IN
  EventLabels(Prop(o), exp, CoreEv(o)) \union PubLabels(c, o, exp) \union Special(c, o)
  \union (IF Delivered(o) /\ o.n # 1 THEN {Prop(o) \o ":not-received"} ELSE {})
Tag(c, o) ==
  {o.op} \union
  (CASE o.op = "pose" ->
          LET par == IF o.hd = 0 THEN c.par.pose ELSE c.par.pose2
              h == IF o.hd = 0 THEN s.h ELSE s.h2
          IN {o.kind} \union (IF ~PoseHas(par, o.kind) THEN {"pose-no-covariance"} ELSE IF ~PoseAdmits(par, h, o) THEN {"pose-throttled"} ELSE {"pose-used"})
             \union (IF PoseAdmits(par, h, o) THEN {"fixed-" \o ToString(par.fixed) \o "-world-" \o ToString(par.world)} ELSE {})
             \union (IF h.last # None /\ o.t < h.last THEN {"pose-backward"} ELSE {})
             \union (IF o.hd = 1 THEN {"pose-second"} ELSE {})
     [] o.op \in {"pos", "nav"} ->
          (IF PosAdmits(IF o.hd = 0 THEN c.par.pos ELSE c.par.pos2, o) THEN {o.op \o "-used"} ELSE {o.op \o "-dropped"})
          \union (IF o.hd = 1 THEN {"position-second"} ELSE {})
     [] o.op = "press" -> IF PressAdmits(o) THEN {"press-used"} ELSE {"press-dropped"}
     [] o.op = "ext" -> {"ext-flag-" \o ToString(o.flag)} \union (IF ExtFinite(o) THEN {} ELSE {"ext-nonfinite"})
     [] o.op = "cfg" -> (IF o.cfg.init = 1 THEN {"cfg-init"} ELSE {}) \union
          (IF o.cfg.seth = 1 THEN {IF HeightOk(s) THEN "cfg-height" ELSE "cfg-height-refused"} ELSE {}) \union
          (IF o.cfg.init = 1 /\ ~s.h.got THEN {"init-no-pose"} ELSE {})
     [] o.op \in {"scale", "height"} -> {o.op \o "-" \o ToString(ServiceRet(c, s, o))}
     [] o.op \in {"pupd", "pinit", "pprop"} -> {o.op \o "-" \o t : t \in {u \in Topics : Heard(ls, u)}}
          \union (IF ~Finite(o.st) THEN {o.op \o "-nonfinite"} ELSE {}) \union (IF s.ext # <<>> THEN {"ext-received"} ELSE {})
     [] OTHER -> {})
Report(kind, x) == PrintT("@@" \o kind \o " " \o ToJson(x))
TraceInit == b \in 1..Len(Traces) /\ l = 1 /\ s = NewApp /\ ls = Traces[b].listeners /\ tags = {} /\ bad = FALSE
Step == /\ l <= Len(Traces[b].ops) /\ ~bad
        /\ LET o == Traces[b].ops[l]
               c == Traces[b]
               lab == Labels(c, o)
           IN IF lab # {}
              THEN /\ Report("MIS", [id |-> Traces[b].id, at |-> l, op |-> o.op, tags |-> Tag(c, o), labels |-> lab, past |-> tags])
                   /\ bad' = TRUE /\ UNCHANGED <<b, l, s, ls, tags>>
              ELSE /\ l' = l + 1 /\ s' = Next1(c, s, o) /\ ls' = (IF o.op = "listen" THEN (o.topic :> o.n) @@ ls ELSE ls)
                   /\ tags' = tags \union Tag(c, o) /\ UNCHANGED <<b, bad>>
Finish == /\ l = Len(Traces[b].ops) + 1 /\ ~bad /\ l' = l + 1
          /\ Report("END", [id |-> Traces[b].id, n |-> l - 1, tags |-> tags])
          /\ UNCHANGED <<b, s, ls, tags, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
Inv == s.h.got \/ (s.h.z = Zero3 /\ s.h.q = Id4)
=============================================================================
