----------------------------- MODULE TorCtlTrace -----------------------------
(* Monitor: are the recorded exchanges between the real collector and a relay
   behaviours of TorCtl?  A trace line is one line of the relay (or the start or
   stop of a collection) and everything that the collector did about it. *)
EXTENDS TorCtl, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>

Set(q) == {q[i] : i \in 1..Len(q)}
Out(r) == {[c |-> o.c, v |-> o.v, e |-> Set(o.e)] : o \in Set(r.out)}
Line(x) == IF x.k = "auth" THEN [x EXCEPT !.m = Set(x.m)] ELSE x

Empty == [cfg |-> [pw |-> "none"], mode |-> "", want |-> NoRound, c |-> Closed, n |-> 0, skip |-> FALSE, up |-> FALSE]
Bad2(r, clause) == PrintT("BAD|C10|" \o r.scn \o "|" \o ToString(l) \o "|" \o clause)

\* did the collector do what r (a result of TorCtl) says?  TRUE, or the clause
Verdict(x, r, rec, bare) ==
    LET o == Out(rec)
        end == Off(s.cfg) \cup {Quit}
    IN IF x.shut \/ (x.may /\ rec.shut)
       THEN IF ~rec.shut THEN "goes-on-after-failure"
            ELSE IF ~(o \subseteq end) THEN "says-too-much-after-failure"
            ELSE IF s.c.act # {} /\ ~(Off(s.cfg) \subseteq o) THEN "left-on-after-failure"
            ELSE IF bare /\ rec.n # 0 THEN "counts-after-failure"
            ELSE "ok"
       ELSE IF rec.shut THEN "gives-up"
            ELSE IF \E y \in o \ x.out : y.c \in {"AUTHENTICATE", "AUTHCHALLENGE"} THEN "wrong-credentials"
            ELSE IF \E y \in o \ x.out : y.c = "SETEVENTS" THEN "asks-for-other-events"
            ELSE IF \E y \in o \ x.out : y.c = "SETCONF" THEN "changes-configuration"
            ELSE IF o \ x.out # {} THEN "says-something-else"
            ELSE IF x.out \ o # {} THEN "does-not-ask"
            ELSE IF bare /\ rec.n > x.n THEN "counts-unwanted"
            ELSE IF bare /\ rec.n < x.n THEN "does-not-count"
            ELSE "ok"

Step(r) ==
  CASE r.e = "reset" -> [s |-> [Empty EXCEPT !.cfg = r.cfg, !.mode = r.mode], v |-> "ok"]
    [] s.skip -> [s |-> s, v |-> "ok"]
    [] r.e = "gone" -> [s |-> s, v |-> "collector-exits"]
    [] r.e = "conn" ->
         (IF ~r.up THEN [s |-> s, v |-> "does-not-connect-again"]
          ELSE IF Out(r) # {} THEN [s |-> s, v |-> "speaks-first"]
          ELSE [s |-> [s EXCEPT !.c = Fresh], v |-> "ok"])
    [] r.e = "lost" -> [s |-> [s EXCEPT !.c = Closed], v |-> "ok"]
    [] r.e = "wait" -> [s |-> s, v |-> IF Out(r) # {} \/ (r.shut # (s.c.st = "closed")) THEN "acts-unasked" ELSE "ok"]
    [] r.e = "start" ->
         LET x == Begin(s.cfg, Set(r.w), s.c) IN
         [s |-> [s EXCEPT !.want = Set(r.w), !.c = x.c, !.n = 0],
          v |-> IF ~r.ok THEN "refuses-round"
                ELSE IF s.c.st = "closed" THEN IF Out(r) # {} THEN "speaks-first" ELSE "ok"
                ELSE Verdict(x, s.c, [r EXCEPT !.w = {}] @@ [n |-> 0], FALSE)]
    [] r.e = "stop" ->
         LET x == End(s.cfg, s.c) IN
         IF s.mode = "dc"
         THEN [s |-> [s EXCEPT !.want = NoRound, !.c = Closed],
               v |-> IF ~r.ok THEN "no-reply"
                     ELSE IF r.got > s.n THEN "counts-unwanted"
                     ELSE IF r.got < s.n THEN "does-not-count"
                     ELSE IF s.c.st # "closed" /\ ~r.shut THEN "stays-connected"
                     ELSE IF s.c.act # {} /\ ~(Off(s.cfg) \subseteq Out(r)) THEN "left-on-after-stop"
                     ELSE IF ~(Out(r) \subseteq Off(s.cfg) \cup {Quit}) THEN "says-too-much-after-stop" ELSE "ok"]
         \* before the relay has accepted the collector there is nothing to turn off
         ELSE [s |-> [s EXCEPT !.want = NoRound, !.c = x.c],
               v |-> IF s.c.st \in {"closed", "info", "chal", "auth"}
                     THEN IF Out(r) \subseteq x.out THEN "ok" ELSE "says-too-much-after-stop"
                     ELSE Verdict(x, s.c, r @@ [n |-> 0], FALSE)]
    [] r.e = "line" ->
         LET x == Recv(s.cfg, s.want, s.c, Line(r.l)) IN
         [s |-> [s EXCEPT !.c = IF x.shut \/ r.shut THEN Closed ELSE x.c, !.n = @ + x.n],
          v |-> Verdict(x, s.c, r, s.mode # "dc")]

Init == l = 1 /\ s = Empty
Next == /\ l <= Len(Trace)
        /\ LET x == Step(Trace[l]) IN
           /\ s' = IF x.v = "ok" THEN x.s ELSE [x.s EXCEPT !.skip = TRUE]
           /\ IF x.v = "ok" THEN TRUE ELSE Bad2(Trace[l], x.v)
        /\ l' = l + 1
        /\ l = Len(Trace) => PrintT("DONE|" \o ToString(l))
Spec == Init /\ [][Next]_vars
=============================================================================
