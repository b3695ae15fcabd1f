----------------------------- MODULE UpdateTrace -----------------------------
\* Recorded updates and covariance predictions of the real code against Update.
EXTENDS Update, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES b, l, tags, bad
vars == <<b, l, tags, bad>>
n == 16
Masked(c, fixed) == TLCEval([i \in 1..n |-> IF (i \in 7..9) \/ (fixed = 1 /\ i \in 10..15) THEN 0 ELSE c[i]])
Lab(c, x) == IF c THEN {} ELSE {x}
\* one absolute update: x the request, y what was observed, P the covariance before
UpdLabels(x, y, P, fixed) ==
  LET m == Len(x.R)
      G == TimesHt(P, x.H, m)
      rej == Rejected(x.gate, x.thr, x.r, x.V, x.D)
      c == Correction(G, x.V, x.r)
  IN IF ~IsInverse(Innovation(P, x.H, x.R), x.V, x.D) THEN {"BADINPUT"}
     ELSE IF rej
     THEN Lab(y.done = 0, "gate") \union (IF y.done = 1 THEN {} ELSE Lab(y.P = P, "rejected-cov") \union Lab(\A i \in 1..n : y.d[i] = 0, "rejected-state"))
     ELSE Lab(y.done = 1, "gate") \union (IF y.done = 0 THEN {} ELSE
           Lab(y.c = c, "correction") \union Lab(y.P = Posterior(P, G, x.V, x.D), "cov")
           \union Lab(y.d = Masked(c, fixed), "state") \union Lab(y.nx = 0, "exact"))
\* the covariance before the k-th update of a chain
RECURSIVE Before(_, _)
Before(o, k) == IF k = 1 THEN Dense(o.P, n, n)
                ELSE LET x == o.us[k - 1]  P == Before(o, k - 1)
                     IN IF Rejected(x.gate, x.thr, x.r, x.V, x.D) THEN P
                        ELSE Over(Posterior(P, TimesHt(P, x.H, Len(x.R)), x.V, x.D), x.D)
RelLabels(o) ==
  LET m == Len(o.R)
      Po == Dense(o.Po, n, n)  Pn == Dense(o.Pn, n, n)
      G == RelGain(Po, Pn, o.Fs, o.Ho, o.Hn, m)
      c == Correction(G, o.V, o.r)
  IN IF o.applied = 0 THEN {"applied"}
     ELSE IF ~IsInverse(RelInnovation(Po, Pn, o.Fs, o.Ho, o.Hn, o.R), o.V, o.D) THEN {"BADINPUT"}
     ELSE Lab(o.done = 1, "rel-done") \union Lab(o.c = c, "rel-correction") \union Lab(o.P = Posterior(Pn, G, o.V, o.D), "rel-cov")
          \union Lab(o.d = Masked(c, o.fixed), "rel-state") \union Lab(o.Pold = Po /\ o.oldmoved = 0, "rel-old") \union Lab(o.nx = 0, "exact")
StepLabels(o) ==
  LET k == Coefs(o.U, o.dt, 64)
      F == Transition(k, o.U, o.q, o.a, o.w)
      Q == Noise(k, o.U, o.q, o.a, o.ns)
  IN IF o.applied = 0 THEN {"applied"}
     ELSE IF o.turned = 1 THEN {"attitude"}
     ELSE Lab(o.F = F, "transition") \union Lab(o.Q = Q, "noise") \union Lab(o.P = Predicted(F, o.P0, Q), "predicted") \union Lab(o.nx = 0, "exact")
Labels(o) == CASE o.op = "start" -> {}
               [] o.op = "upd" -> IF o.applied # 1 \/ Len(o.u) # Len(o.us) THEN {"applied"}
                                  ELSE LET one(k) == UpdLabels(o.us[k], o.u[k], Before(o, k), o.fixed)
                                           bads == {k \in 1..Len(o.us) : one(k) # {}}
                                       IN IF bads = {} THEN {} ELSE one(CHOOSE k \in bads : \A j \in bads : k <= j)
               [] o.op = "rel" -> RelLabels(o)
               [] OTHER -> StepLabels(o)
Tag(o) == {o.op} \union
  (IF o.op = "upd" THEN UNION {{"dim" \o ToString(Len(x.r)), IF x.kind = 1 THEN "dynamic" ELSE "fixed-size"}
                               \union (IF Rejected(x.gate, x.thr, x.r, x.V, x.D) THEN {"rejected"} ELSE IF x.gate = 1 THEN {"passed-gate"} ELSE {})
                               \union (IF x.gate = 1 /\ Distance(x.r, x.V) = x.thr * x.thr * x.D THEN {"at-threshold"} ELSE {}) : x \in {o.us[k] : k \in DOMAIN o.us}}
                         \union (IF Len(o.us) > 1 THEN {"chain"} ELSE {}) \union (IF o.fixed = 1 THEN {"fixed-bias"} ELSE {})
   ELSE IF o.op = "rel" THEN {"span" \o ToString(Len(o.Fs)), "rel-dim" \o ToString(Len(o.r))}
   ELSE IF o.op = "step" THEN (IF \E i \in 1..3 : o.w[i] # 0 THEN {"turning"} ELSE {}) \union (IF \E i \in 1..3 : o.a[i] # 0 THEN {"accelerating"} ELSE {})
        \union (IF o.ns[3] # 0 \/ o.ns[4] # 0 THEN {"gyro-noise"} ELSE {}) \union (IF o.ns[1] # 0 \/ o.ns[2] # 0 THEN {"acc-noise"} ELSE {})
        \union {"dt" \o ToString(o.dt)}
   ELSE {})
Report(kind, x) == PrintT("@@" \o kind \o " " \o ToJson(x))
TraceInit == b \in 1..Len(Traces) /\ l = 1 /\ tags = {} /\ bad = FALSE
Step == /\ l <= Len(Traces[b].ops) /\ ~bad
        /\ LET o == Traces[b].ops[l]
               lab == Labels(o)
           IN IF lab # {}
              THEN /\ Report("MIS", [id |-> Traces[b].id, at |-> l, op |-> o.op, tags |-> Tag(o), labels |-> lab, past |-> tags])
                   /\ bad' = TRUE /\ UNCHANGED <<b, l, tags>>
              ELSE l' = l + 1 /\ tags' = tags \union Tag(o) /\ UNCHANGED <<b, bad>>
Finish == /\ l = Len(Traces[b].ops) + 1 /\ ~bad /\ l' = l + 1
          /\ Report("END", [id |-> Traces[b].id, n |-> l - 1, tags |-> tags])
          /\ UNCHANGED <<b, tags, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_vars
=============================================================================
