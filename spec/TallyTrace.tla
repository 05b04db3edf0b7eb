------------------------------ MODULE TallyTrace ------------------------------
(* Monitor: what a real tally server asked, said and published, against Tally. *)
EXTENDS Tally, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad
vars == <<l, st, bad>>
\* st.sent: when the tally server last reported its status on a connection that
\* has not been answered (-1: answered)
Nobody == [period |-> 1, checkin |-> 1, delay |-> 0, always |-> FALSE, tol |-> 0, alloc |-> << >>, cont |-> 0,
           dcth |-> 1, skth |-> 1, after |-> 0, jit |-> 0]
Empty == [s |-> NewTally(Nobody, 0, 1000000), scn |-> "", skip |-> TRUE, sent |-> << >>]
Range(f) == {f[i] : i \in DOMAIN f}
V(c, p, clause) == IF c THEN {<<p, clause>>} ELSE {}

Abs(x) == IF x < 0 THEN -x ELSE x
Rtt(x, r) == IF x.sent[r.c] < 0 THEN 0 ELSE r.t - x.sent[r.c]
Skew(x, r) == IF x.sent[r.c] < 0 THEN 0 ELSE Abs(Rtt(x, r) \div 2 + r.off)
Now(s, r) == Wait(s, r.t)

\* the answer to a status report
AnswerCheck(s, q, a, u) ==
    IF a.k \in {"none", "several", "other"} THEN {<<"C03", "no-single-answer-to-status">>}
    ELSE IF a.k # q.k THEN
        (IF a.k = "startsk" /\ Running(s) /\ s.p.ph = "sdc" THEN {<<"C03", "share-keeper-started-too-early">>}
         ELSE IF a.k \in {"startdc", "startsk"} /\ (~Running(s) \/ (Running(s) /\ u \notin Members(s.p))) THEN {<<"C03", "start-to-a-stranger">>}
         ELSE IF a.k \in {"startdc", "startsk"} THEN {<<"C03", "start-repeated-after-acknowledgement">>}
         ELSE IF q.k \in {"startdc", "startsk"} THEN {<<"C03", "start-not-repeated">>}
         ELSE IF a.k = "stop" THEN {<<"C12", "stop-not-due">>} \cup V(Running(s) /\ u \in DOMAIN s.p.final, "C02", "counts-asked-for-again")
         ELSE {<<"C12", "stop-missing">>})
    ELSE CASE a.k = "checkin" -> V(a.period # s.cfg.checkin, "C24", "check-in-period")
           [] a.k = "stop" -> V(a.send # q.send, "C02", IF a.send THEN "counts-asked-for-in-failed-round" ELSE "counts-not-asked-for")
           [] OTHER -> LET c == s.p.cfg IN
                V(a.alloc # c.alloc \/ ~a.bins, "C24", "round-with-other-counters")
                \cup V(a.period # c.period \/ a.dcth # c.dcth, "C24", "round-with-other-parameters")
                \cup (IF a.k = "startdc"
                      THEN V(a.sks # q.sks, "C03", "not-the-share-keepers-of-the-round") \cup V(a.defer # s.p.pad, "C12", "defer-time")
                      ELSE V(Len(a.shares) # Cardinality(DOMAIN q.shares) \/ Range(a.shares) # Range(q.shares), "C03", "not-the-shares-of-this-share-keeper"))

StatusCheck(x, r) ==
    LET s0 == Now(x.s, r)
        rec == [type |-> r.r.type, state |-> r.r.state, fp |-> r.r.fp, key |-> r.r.key, bad |-> r.r.bad, rtt |-> Rtt(x, r), skew |-> Skew(x, r)]
        s1 == Report(s0, r.u, rec, r.t)
        q == Ask(s1, r.u)
    IN [x |-> [x EXCEPT !.s = Asked(s1, r.u, r.c, q), !.sent = Put(@, r.c, -1)],
        v |-> AnswerCheck(s1, q, r.q, r.u)]
ReplyCheck(x, r) ==
    LET s0 == Now(x.s, r)
        s1 == IF r.k = "start" THEN StartReply(s0, r.u, r.c, r.ok, r.sh) ELSE StopReply(s0, r.u, r.c, r.ok, r.kind, r.val)
    IN [x |-> [x EXCEPT !.s = s1, !.sent = Put(@, r.c, r.t)], v |-> V(~r.served, "C03", "reply-not-acknowledged")]

----------------------------------------------------------------------------
RECURSIVE SumOf(_, _)
SumOf(S, f) == IF S = {} THEN 0 ELSE LET u == CHOOSE u \in S : TRUE IN f[u].val + SumOf(S \ {u}, f)
Rounded(t) == ((t + 500) \div 1000) * 1000
\* one completed round: an outcome, and a tally if and only if there is one
OutCheck(o, w) ==
    LET outs == {i \in DOMAIN w : w[i].kind = "outcome"}
        tals == {i \in DOMAIN w : w[i].kind = "tallies"}
        F == o.final
        Vals == SumOf(DOMAIN F, F)
        n == Cardinality(DOMAIN F)
    IN
    IF Cardinality(outs) # 1 THEN {<<"C23", "not-one-outcome">>, <<"C12", "round-without-outcome">>}
    ELSE LET y == w[CHOOSE i \in outs : TRUE] IN
        V((y.tally \/ tals # {}) /\ ~o.tally, "C02", "tally-of-a-failed-round")
        \cup V(o.tally /\ ~y.tally, "C01", "no-tally-of-a-complete-round")
        \cup V(o.tally /\ y.tally /\ Cardinality(tals) # 1, "C23", "not-one-tally-file")
        \cup V(Cardinality(outs \cup tals) # Len(w), "C23", "unexpected-file")
        \cup (IF o.tally /\ y.tally THEN
                V(\E i \in outs \cup tals : \E b \in DOMAIN w[i].vals : w[i].vals[b] # Vals + n * 1000 * (b - 1), "C01", "tally-is-not-the-sum")
                \cup V(\E i \in outs \cup tals : Range(w[i].names) # DOMAIN o.alloc \cup {"ZeroCount"}, "C01", "tally-of-other-counters")
              ELSE {})
        \cup V(\E i \in DOMAIN w : w[i].begin # Rounded(o.begin) \/ w[i].end # Rounded(o.end), "C23", "file-of-another-time")
        \cup V(y.start # o.begin \/ y.stop # o.end, "C23", "context-of-another-time")
        \cup V(\E u \in DOMAIN y.fps \cap DOMAIN o.cl : y.fps[u] # o.cl[u].fp, "C13", "fingerprint-changed")
        \cup V(DOMAIN y.fps # {u \in DOMAIN o.cl : o.cl[u].type = "dc"}, "C13", "outcome-lists-other-nodes")
\* what was published since the last record, for the rounds that ended
Published(old, s, w) ==
    LET k == Len(s.out) - old IN
    IF k = 0 THEN V(w # << >>, "C12", "round-ended-early") \cup V(\E i \in DOMAIN w : w[i].tally, "C02", "tally-of-a-round-under-way")
    ELSE IF k = 1 THEN OutCheck(s.out[Len(s.out)], w)
    ELSE V(Cardinality({i \in DOMAIN w : w[i].kind = "outcome"}) # k, "C12", "round-without-outcome")

StateCheck(s, ts, t) ==
    IF ~ts.up THEN {<<"C12", "tally-server-gone">>}
    ELSE LET have == [di |-> Cardinality(Who(s, "dc", "idle")), da |-> Cardinality(Who(s, "dc", "active")),
                      si |-> Cardinality(Who(s, "sk", "idle")), sa |-> Cardinality(Who(s, "sk", "active"))]
         IN (IF ts.state = "active" /\ ~Running(s)
             THEN (IF s.done = ts.done THEN V(~DelayOver(s, t), "C07", "round-begun-before-the-delay") \cup {<<"C12", "round-begun-too-early">>}
                   ELSE {<<"C12", "round-not-ended">>})
             ELSE IF ts.state = "idle" /\ Running(s)
             THEN {<<"C12", IF s.done = ts.done THEN "round-not-begun" ELSE "round-ended-early">>} \cup V(s.done = ts.done /\ s.d.last >= 0, "C07", "round-not-begun")
             ELSE V(ts.done # s.done, "C12", "rounds-miscounted"))
            \cup V(\E k \in DOMAIN have : have[k] # ts[k], "C13", "wrong-nodes-available")

Step(x, r) ==
    CASE r.e = "conn" -> [x |-> [x EXCEPT !.s = Now(@, r), !.sent = Put(@, r.c, r.t)], v |-> {}]
      [] r.e = "status" -> StatusCheck(x, r)
      [] r.e = "reply" -> ReplyCheck(x, r)
      [] r.e \in {"wait", "note"} -> [x |-> [x EXCEPT !.s = Now(@, r)], v |-> {}]
      [] r.e = "cfg" -> [x |-> [x EXCEPT !.s = [Now(@, r) EXCEPT !.good = r.good, !.file = r.cfg]], v |-> {}]
      [] OTHER -> [x |-> x, v |-> {<<"C12", "unknown-event">>}]
Check(x, r) ==
    CASE r.e = "reset" -> [x |-> [Empty EXCEPT !.s = NewTally(r.cfg, r.t, r.step), !.scn = r.scn, !.skip = FALSE], v |-> {}]
      [] x.skip -> [x |-> x, v |-> {}]
      [] r.e = "conn" -> Step(x, r)
      [] OTHER -> LET c == Step(x, r) IN
            [x |-> c.x, v |-> c.v \cup Published(Len(x.s.out), c.x.s, r.outs) \cup StateCheck(c.x.s, r.ts, r.t)]

Init == l = 1 /\ st = Empty /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET r == Check(st, Trace[l]) IN
           /\ st' = IF r.v = {} THEN r.x ELSE [r.x EXCEPT !.skip = TRUE]
           /\ \A b \in r.v : PrintT("BAD|" \o b[1] \o "|" \o st'.scn \o "|" \o ToString(l) \o "|" \o b[2])
           /\ bad' = bad + Cardinality(r.v)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => PrintT("DONE|" \o ToString(l))
Spec == Init /\ [][Next]_vars
=============================================================================
