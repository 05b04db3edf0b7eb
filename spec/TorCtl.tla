------------------------------- MODULE TorCtl -------------------------------
(* The data collector's side of a relay's control connection (C10).

   cfg   [pw, setconf, rate, cells]: what the collector is configured with;
         pw is what its password file holds: "none" (no file configured),
         "ok", "short", "long" or "missing"
   want  the events of the collection under way, or NoRound
   c     one control connection:
         st       info -> (chal ->) auth -> disc -> wait <-> proc, or closed
         offered, known   authentication methods the relay has named
         cookie   what the cookie file named by the relay holds
         ns       inside the relay's consensus entry (a multi-line reply)
         act      the events that have been asked for on this connection

   Recv(cfg, want, c, l) is what one line of the relay does: [c, out, shut, n]
   with the next state, the commands sent, whether the collector ends the
   connection, and how many events reach the counters.  Commands that only ask
   for information are left out, except the two that the exchange depends on. *)
EXTENDS Integers, Sequences, FiniteSets

NoRound == {"no round"}

Cmd(n, v) == [c |-> n, v |-> v, e |-> {}]
Events(s) == [c |-> "SETEVENTS", v |-> "", e |-> s]

\* what turns collection off, and on, at the relay
Off(cfg) ==
    {Events({}), Cmd("SET_TMODEL", "FALSE")}
    \cup (IF cfg.setconf THEN
            {Cmd("SETCONF", "EnablePrivCount=0"), Cmd("SETCONF", "__ReloadTorrcOnSIGHUP=1")}
            \cup (IF cfg.rate THEN {Cmd("SETCONF", "PrivCountCircuitSampleRate=1.0")} ELSE {})
            \cup (IF cfg.cells THEN {Cmd("SETCONF", "PrivCountMaxCellEventsPerCircuit=-1")} ELSE {})
          ELSE {})
On(cfg, want) ==
    {Events(want), Cmd("GETCONF", "EnablePrivCount")}
    \cup (IF cfg.setconf THEN
            {Cmd("SETCONF", "EnablePrivCount=1"), Cmd("SETCONF", "__ReloadTorrcOnSIGHUP=0")}
            \cup (IF cfg.rate THEN {Cmd("SETCONF", "PrivCountCircuitSampleRate=0.5")} ELSE {})
            \cup (IF cfg.cells THEN {Cmd("SETCONF", "PrivCountMaxCellEventsPerCircuit=25")} ELSE {})
          ELSE {})
Quit == Cmd("QUIT", "")

Fresh == [st |-> "info", offered |-> {}, known |-> FALSE, cookie |-> "none", ns |-> FALSE, act |-> {}]
Closed == [Fresh EXCEPT !.st = "closed"]

Res(c, out) == [c |-> c, out |-> out, shut |-> FALSE, may |-> FALSE, n |-> 0]
\* the collector ends the connection; what it says then only turns things off
Shut(c) == [c |-> Closed, out |-> {}, shut |-> TRUE, may |-> FALSE, n |-> 0]
\* inside a multi-line reply nothing is unexpected: either is right
May(c) == [c |-> c, out |-> {}, shut |-> FALSE, may |-> TRUE, n |-> 0]

\* the strongest method that the relay offers
Authenticate(cfg, c) ==
    IF ~c.known THEN Shut(c)
    ELSE IF "SAFECOOKIE" \in c.offered /\ c.cookie # "none"
         THEN Res([c EXCEPT !.st = "chal"], {Cmd("AUTHCHALLENGE", "fresh")})
    ELSE IF "HASHEDPASSWORD" \in c.offered /\ cfg.pw = "ok"
         THEN Res([c EXCEPT !.st = "auth"], {Cmd("AUTHENTICATE", "pw")})
    ELSE IF "NULL" \in c.offered
         THEN Res([c EXCEPT !.st = "auth"], {Cmd("AUTHENTICATE", "none")})
    ELSE Shut(c)

\* kinds of lines by the first character of the reply code
Ok == {"pi", "ver", "ok", "ok2", "auth", "chal", "fp", "info", "pcv", "epc1", "epc0", "nsbegin", "nsgone"}
Bad == {"err", "nopcv", "noserver", "unk", "noaddr", "nsunk", "nss", "nsend", "junk", "bw"}
\* "ev": an event; it is never an error

Unexpected(c, l) == IF l.k \in Bad THEN (IF c.ns THEN May(c) ELSE Shut(c)) ELSE Res(c, {})

\* the consensus entry of the relay can come at any time after the challenge
Entry(c, l) ==
    IF l.k \in {"nsgone", "nsunk"} THEN Res(c, {})
    ELSE IF l.k = "nsbegin" THEN Res([c EXCEPT !.ns = TRUE], {})
    ELSE IF c.ns /\ l.k = "nss" THEN Res(c, {})
    ELSE IF c.ns /\ l.k = "nsend" THEN Res([c EXCEPT !.ns = FALSE], {})
    ELSE Unexpected(c, l)

Enable(cfg, want, c) ==
    IF want # NoRound /\ c.st \in {"wait", "proc"}
    THEN Res([c EXCEPT !.st = "proc", !.act = want], On(cfg, want))
    ELSE Res(c, {})

Recv(cfg, want, c, l) ==
  CASE c.st = "info" ->
         (CASE l.k = "auth" -> Res([c EXCEPT !.known = TRUE, !.offered = l.m,
                                      !.cookie = IF l.ck = "none" THEN @ ELSE l.ck], {})
            [] l.k = "ok" -> Authenticate(cfg, c)
            [] OTHER -> Unexpected(c, l))
    [] c.st = "chal" ->
         (IF l.k # "chal" THEN Entry(c, l)
          \* the relay must prove that it knows the cookie, and this is a cookie
          ELSE IF l.h = "right" /\ l.n = "ok" /\ c.cookie = "ok"
          THEN Res([c EXCEPT !.st = "auth"], {Cmd("AUTHENTICATE", "hash")})
          ELSE Shut(c))
    [] c.st = "auth" ->
         (IF l.k = "ok" THEN Res([Fresh EXCEPT !.st = "disc", !.ns = c.ns], Off(cfg) \cup {Cmd("GETINFO", "fingerprint")})
          ELSE Entry(c, l))
    [] c.st = "disc" ->
         (CASE l.k = "epc0" -> Shut(c)
            [] l.k = "noaddr" -> Res(c, {})
            [] l.k = "fp" -> (IF l.v = "ok" THEN Enable(cfg, want, [c EXCEPT !.st = "wait"]) ELSE Shut(c))
            [] l.k \in {"nopcv", "noserver", "unk", "err", "nsunk"} -> Shut(c)
            [] OTHER -> Unexpected(c, l))
    [] c.st = "wait" -> Entry(c, l)
    [] c.st = "proc" ->
         (CASE l.k = "ev" ->
                 (IF l.t \notin c.act \/ l.d = "empty" THEN Res(c, {})
                  ELSE IF l.d = "reject" THEN Shut(c)
                  ELSE [Res(c, {}) EXCEPT !.n = 1])
            [] l.k = "epc0" -> Shut(c)
            [] OTHER -> Entry(c, l))
    [] OTHER -> Res(c, {})

\* a collection begins or ends while the connection is in any state
Begin(cfg, want, c) == Enable(cfg, want, c)
End(cfg, c) ==
    IF c.st = "closed" THEN Res(c, {})
    ELSE Res([c EXCEPT !.st = IF @ = "proc" THEN "wait" ELSE @, !.act = {}], Off(cfg))
=============================================================================
