------------------------------- MODULE Inject -------------------------------
(* The event injector: a control server that stands in for a relay (C11).

   cfg    [pw, ck, pause, n, valid, ends]: what the injector is started with;
          pw  "none" (not configured), "ok", "short", "long" or "missing"
          ck  "none" (not configured), "ok", or "bad" (cannot be written)
          n   how many events the log has, valid[i] whether event i is in the
              window of times that are injected, ends[i] when it ended
   s.conns   one [st, ck, chal] per connection:
          st    open -> auth -> closed
          ck    it has been told of the cookie; chal: it has been challenged
   s.asker   the connection that asked for events last
   s.phase   idle -> on -> done; or done -> again
   s.next    the next event of the log

   Recv(cfg, s, i, l) is what one line on connection i does: [s, out] with the
   reply codes.  Events are sent at once, or with pauses: Deliver.            *)
EXTENDS Integers, Sequences, FiniteSets

Conn == [st |-> "open", ck |-> FALSE, chal |-> FALSE]
Start == [conns |-> <<>>, asker |-> 0, phase |-> "idle", next |-> 1]

\* nobody has to authenticate when there is nothing to authenticate with
Open(cfg) == cfg.pw = "none" /\ cfg.ck = "none"
Methods(cfg) ==
    (IF cfg.ck = "ok" THEN {"SAFECOOKIE"} ELSE {})
    \cup (IF cfg.pw = "ok" THEN {"HASHEDPASSWORD"} ELSE {})
    \cup (IF Open(cfg) THEN {"NULL"} ELSE {})

\* kinds of proofs: which of them prove something
Undecodable == {"badhex", "oddhex", "bare"}
Proves(cfg, c, p) ==
    \/ Open(cfg)
    \/ p \in {"pwhex", "pwquoted"} /\ cfg.pw = "ok"
    \/ p = "right" /\ c.ck /\ c.chal

\* the events that are left from position k on
RECURSIVE Skip(_, _)
Skip(cfg, k) == IF k > cfg.n THEN k ELSE IF cfg.valid[k] THEN k ELSE Skip(cfg, k + 1)
AtEnd(cfg, s) == Skip(cfg, s.next) > cfg.n

StopAsked(s, i) == IF s.asker = i /\ s.phase \in {"on", "again"} THEN [s EXCEPT !.phase = "done"] ELSE s
Close(s, i) == [StopAsked(s, i) EXCEPT !.conns[i].st = "closed"]
Ask(s, i) ==
    CASE s.phase = "idle" -> [s EXCEPT !.asker = i, !.phase = "on"]
      [] s.phase = "on" -> [s EXCEPT !.asker = i]
      [] OTHER -> [s EXCEPT !.asker = i, !.phase = "again"]

To(s, out) == [s |-> s, out |-> out]

\* questions of an authenticated client, and how many reply lines they get
GoodInfo == {"info", "info version", "info privcount-version", "info address", "info fingerprint", "info ns"}
GoodConf == {"conf", "conf nickname", "conf orport", "conf dirport", "conf geoip", "conf privcount"}
Answer(l) ==
    CASE l.k \in {"info", "conf", "conf nickname", "conf dirport", "conf geoip", "conf privcount"} -> <<250>>
      [] l.k \in GoodInfo \cup {"conf orport"} -> <<250, 250>>
      [] l.k \in {"set", "set privcount", "set rate", "set cells", "set reload", "tmodel"} -> <<250>>
      [] l.k \in {"info unknown", "conf unknown", "set unknown"} -> <<552>>
      [] OTHER -> <<510>>

Recv(cfg, s, i, l) ==
    LET c == s.conns[i] IN
    CASE c.st = "closed" -> To(s, <<>>)
      [] l.k = "quit" -> To(Close(s, i), <<250>>)
      [] c.st = "open" ->
           (CASE l.k = "protocolinfo" -> To([s EXCEPT !.conns[i].ck = (cfg.ck = "ok")], <<250, 250, 250, 250>>)
              [] l.k = "challenge" ->
                   IF c.ck /\ l.p = "ok" THEN To([s EXCEPT !.conns[i].chal = TRUE], <<250>>)
                   ELSE To(Close(s, i), <<513>>)
              [] l.k = "authenticate" ->
                   IF l.p \in Undecodable THEN To(Close(s, i), <<551>>)
                   ELSE IF Proves(cfg, c, l.p) THEN To([s EXCEPT !.conns[i].st = "auth"], <<250>>)
                   ELSE To(Close(s, i), <<515>>)
              [] OTHER -> To(Close(s, i), <<514>>))
      [] OTHER ->
           (CASE l.k = "events" -> To(Ask(s, i), <<250>>)
              [] l.k = "events none" -> To(StopAsked(s, i), <<250>>)
              [] l.k = "events unknown" -> To(StopAsked(s, i), <<552>>)
              [] OTHER -> To(s, Answer(l)))

RECURSIVE RecvAll(_, _, _, _)
RecvAll(cfg, s, i, ls) ==
    IF ls = <<>> THEN To(s, <<>>)
    ELSE LET x == Recv(cfg, s, i, Head(ls)) IN
         LET y == RecvAll(cfg, x.s, i, Tail(ls)) IN To(y.s, x.out \o y.out)

\* the next event goes to whoever asked last
Deliver(cfg, s) == [s EXCEPT !.next = Skip(cfg, s.next) + 1]
Finish(cfg, s) == IF s.phase = "on" /\ AtEnd(cfg, s) THEN [s EXCEPT !.phase = "done"] ELSE s
=============================================================================
