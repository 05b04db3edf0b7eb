----------------------------- MODULE InjectTrace -----------------------------
(* Monitor: are the recorded exchanges between the real injector and its clients
   behaviours of Inject?  Times are halves of a second. *)
EXTENDS Inject, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, cfg, last, skip
vars == <<l, s, cfg, last, skip>>

Set(q) == {q[i] : i \in 1..Len(q)}
Log(c) == c.log
Config(c) == [pw |-> c.pw, ck |-> c.ck, n |-> Len(c.log), pause |-> c.pause, log |-> c.log,
              valid |-> [i \in 1..Len(c.log) |-> LET e == IF c.log[i].kind = "odd" THEN 0 ELSE c.log[i].end
                                                IN e >= c.before /\ e <= c.after]]
Bad(r, clause) == PrintT("BAD|C11|" \o r.scn \o "|" \o ToString(l) \o "|" \o clause)
End(e) == IF e.kind = "odd" THEN 0 ELSE e.end
Max(a, b) == IF a > b THEN a ELSE b

\* the replies to what was asked
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* the injector leaves when it has come to the end of the log again
Replies(r, i, st, out, again) ==
    IF r.other # <<>> THEN "replies-to-another-client"
    ELSE IF r.out # out /\ ~(again /\ Prefix(r.out, out)) THEN
        IF st # "auth" THEN IF 250 \in Set(out) THEN "refuses-client" ELSE IF 250 \in Set(r.out) THEN "serves-unauthenticated" ELSE "wrong-refusal"
        ELSE "wrong-answer"
    ELSE IF \E x \in Set(r.pi) : Set(x.m) # Methods(cfg) THEN "wrong-methods"
    ELSE IF \E x \in Set(r.pi) : x.ck # (IF cfg.ck = "ok" THEN "ok" ELSE "none") THEN "wrong-cookie"
    ELSE IF \E x \in Set(r.chal) : x.proof # "right" THEN "wrong-proof"
    ELSE IF \E x \in Set(r.chal) : ~x.fresh THEN "nonce-used-again"
    ELSE "ok"

\* the events that were sent, from state x on: [s, v, last] after them
RECURSIVE Sent(_, _, _, _, _)
Sent(x, evs, la, before, now) ==
    IF evs = <<>> THEN [s |-> x, v |-> "ok", last |-> la]
    ELSE LET e == Head(evs)
             k == Skip(cfg, x.next)
             d == cfg.log[k]
             V(c) == [s |-> x, v |-> c, last |-> la]
         IN IF x.conns[e.c].st # "auth" THEN V("event-to-unauthenticated")
            ELSE IF x.phase = "again" THEN IF e.c # x.asker THEN V("event-to-another-client") ELSE Sent(x, Tail(evs), la, before, now)
            ELSE IF x.phase # "on" THEN V("event-unasked")
            ELSE IF e.c # x.asker THEN V("event-to-another-client")
            ELSE IF k > cfg.n \/ e.i = 0 THEN V("event-not-in-log")
            ELSE IF e.i # k THEN V(IF e.i < k THEN "event-again-or-pruned" ELSE "event-skipped")
            ELSE IF e.at >= 0 /\ (e.at < before \/ e.at > now) THEN V("event-not-fresh")
            ELSE IF e.at >= 0 /\ e.dur # (IF d.kind \in {"bytes", "cell"} THEN 0 ELSE d.dur) THEN V("event-duration")
            ELSE IF cfg.pause /\ la >= 0 /\ e.at >= 0 /\ k > 1 /\ e.at # la + Max(0, End(d) - End(cfg.log[k - 1])) THEN V("event-at-another-time")
            ELSE Sent(Finish(cfg, Deliver(cfg, x)), Tail(evs), e.at, before, now)

\* events do not wait unless they are told to
Due(x, r, v) == IF x.phase = "on" /\ ~AtEnd(cfg, x) /\ (~cfg.pause \/ (r.e = "run" /\ r.all)) THEN "events-missing" ELSE v

Open2(x, r) ==
    IF \E i \in 1..Len(x.conns) : r.closed[i] # (x.conns[i].st = "closed") /\ x.phase \notin {"done", "again"}
    THEN IF \E i \in 1..Len(x.conns) : x.conns[i].st = "closed" /\ ~r.closed[i] THEN "stays-connected" ELSE "hangs-up"
    ELSE "ok"

\* events were, or may have been, asked for again after they had stopped
Again(ls, y) ==
    LET n == Cardinality({j \in 1..Len(ls) : ls[j].k = "events"}) IN
    "again" \in {s.phase, y.phase} \/ n > 1 \/ (n = 1 /\ (s.phase = "done" \/ AtEnd(cfg, s)))

\* the reply, then the events; the events of the same instant come after it
Step(r, before) ==
    LET y == CASE r.e = "conn" -> To([s EXCEPT !.conns = Append(@, Conn)], <<>>)
               [] r.e = "line" -> RecvAll(cfg, s, r.c, r.ls)
               [] r.e = "lost" -> To(Close(s, r.c), <<>>)
               [] OTHER -> To(s, <<>>)
        z == Finish(cfg, y.s)
        v == IF r.e = "line" THEN Replies(r, r.c, s.conns[r.c].st, y.out, Again(r.ls, y.s))
             ELSE IF r.out # <<>> \/ r.other # <<>> THEN "speaks-unasked" ELSE "ok"
        w == Sent(z, r.ev, last, before, r.now)
        o == Open2(w.s, r)
    IN [s |-> w.s, last |-> w.last,
        v |-> IF v # "ok" THEN v ELSE IF w.v # "ok" THEN w.v ELSE IF o # "ok" THEN o ELSE Due(w.s, r, "ok")]

Init == l = 1 /\ s = Start @@ [now |-> 0] /\ cfg = [pw |-> "none"] /\ last = -1 /\ skip = FALSE
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
           IF r.e = "reset" THEN s' = Start @@ [now |-> 0] /\ cfg' = Config(r.cfg) /\ last' = -1 /\ skip' = FALSE
           ELSE IF skip THEN UNCHANGED <<s, cfg, last, skip>>
           ELSE LET x == Step(r, s.now) IN
                /\ s' = [x.s EXCEPT !.now = r.now] /\ last' = x.last /\ cfg' = cfg
                /\ skip' = (x.v # "ok")
                /\ IF x.v = "ok" THEN TRUE ELSE Bad(r, x.v)
        /\ l' = l + 1
        /\ l = Len(Trace) => PrintT("DONE|" \o ToString(l))
Spec == Init /\ [][Next]_vars
=============================================================================
