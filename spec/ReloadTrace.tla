----------------------------- MODULE ReloadTrace -----------------------------
(* Monitor: what a real node worked with after each change of its file.      *)
EXTENDS Reload, Delay, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>
Empty == [kind |-> "", x |-> NewNode(0), names |-> 0, scn |-> "", skip |-> TRUE, d |-> NoDelay, up |-> FALSE]
Set(s) == {s[i] : i \in DOMAIN s}
V(c, clause) == IF c THEN {clause} ELSE {}

\* the configuration in force, and that of the round
F(y) == y.x.force
R(y) == y.x.round[1]
Cfg(y) == [delay |-> DelayOf(F(y).sec).n, always |-> AlwaysOf(F(y).sec).n = 1, tol |-> TolOf(F(y).sec).n]

\* a check-in: where the node connects, as whom, with which secret
Look(y, r) ==
    LET c == F(y).sec["tally_server_info"] IN
    V(r.gone, "node-gone") \cup
    (IF r.gone THEN {} ELSE
       V(r.ip # c.s \/ r.port # c.n, "connects-elsewhere")
       \cup V(r.secret # SecretOf(F(y)).s, "another-secret")
       \cup V(r.name # IF y.kind = "dc" THEN F(y).sec["name"].s ELSE y.names[F(y).sec["key"].s], "another-name"))
Conf(y, r) ==
    LET e == EffectiveClient(y.kind, F(y), y.names) IN
    V(DOMAIN r.conf # DOMAIN e, "other-keys-in-force")
    \cup (IF DOMAIN r.conf # DOMAIN e THEN {} ELSE V(r.conf # e, "other-values-in-force"))
\* a data collector only takes all of its share keepers, and a round that the delay permits
Start(y, r) ==
    LET can == (y.kind = "dc" => r.sks = F(y).sec["share_keepers"].s) /\ Permitted(y.d, Cfg(y), r.alloc, 0, r.t)
    IN V(r.ok /\ ~can, "starts-against-its-configuration") \cup V(~r.ok /\ can, "does-not-start")
       \cup V(r.ok /\ y.kind = "dc" /\ r.from # F(y).sec["name"].s, "shares-of-another-name")
\* the relay of a round is the one of its configuration
Tor(y, r) ==
    V(r.port # R(y).sec["event_source"].n, "relay-of-another-configuration")
    \cup V(r.port = R(y).sec["event_source"].n /\ r.setconf # SetconfOf(R(y).sec), "setconf-of-another-configuration")

----------------------------------------------------------------------------
\* the tally server: its status, what it asks for, what it publishes
TDelay(e) == [delay |-> e.delay, always |-> e.always, tol |-> e.tol]
Scaled(a) == [n \in DOMAIN a |-> a[n] * 1000000]
TLook(y, r) ==
    LET e == EffectiveTally(F(y)) IN
    V(r.dcth # e.dcth \/ r.skth # e.skth, "other-thresholds-in-force") \cup V(r.cont # e.cont, "continue-of-another-configuration")
    \cup (LET n == NextStart(y.d, TDelay(e), Scaled(e.sig), 1) IN V(r.until # IF n > e.after THEN n ELSE e.after, "delay-of-another-configuration"))
    \cup (IF r.checkin >= 0 THEN V(r.checkin # e.checkin, "check-in-period") ELSE {})
    \cup (IF r.left >= 0 THEN (IF y.x.round = Idle THEN {"expected-end-without-round"} ELSE V(r.left # EffectiveTally(R(y)).collect, "expected-end-of-another-configuration")) ELSE {})
TAsk(y, r) ==
    LET e == EffectiveTally(R(y)) IN
    V(r.bins # e.bins, "bins-of-another-configuration") \cup V(r.sig # e.sig, "noise-of-another-configuration")
    \cup V(r.collect # e.collect \/ r.dcth # e.dcth \/ r.weights # e.weights, "parameters-of-another-configuration")
    \cup (IF r.dc THEN V(r.rate # e.rate \/ r.cells # e.cells, "sampling-of-another-configuration") ELSE {})
TOut(y, r) ==
    LET e == EffectiveTally(R(y)) IN
    V(Set(r.tally) # DOMAIN e.bins /\ r.hastally, "tally-of-another-configuration")
    \cup V(r.conf # [k \in DOMAIN e \ {"bins", "sig", "results"} |-> e[k]], "context-of-another-configuration")
    \cup V(r.dir \notin {e.results, EffectiveTally(F(y)).results}, "published-elsewhere")
\* a round begins only with the nodes, and after the time, of the configuration in force
TBegin(y, r) == LET e == EffectiveTally(F(y)) IN V(e.dcth > 1 \/ e.skth > 1 \/ r.t < e.after, "begins-against-its-configuration")

Skip(y) == [y EXCEPT !.skip = TRUE]
AsFile(r) == IF r.kind # "ts" THEN r.f
             ELSE [r.f EXCEPT !.known = Set(r.f.known), !.dirs = Set(r.f.dirs),
                              !.accept = IF @ = << >> THEN @ ELSE <<Set(@[1])>>, !.reject = IF @ = << >> THEN @ ELSE <<Set(@[1])>>]
Step(y, r) ==
    CASE r.e = "edit" -> [y |-> [y EXCEPT !.x = Edit(@, AsFile(r))], v |-> {}]
      [] r.e = "read" -> [y |-> [y EXCEPT !.x = Read(@, y.kind)], v |-> V(r.gone, "node-gone")]
      [] r.e = "look" -> [y |-> y, v |-> Look(y, r)]
      [] r.e = "conf" -> [y |-> y, v |-> Conf(y, r)]
      [] r.e = "start" -> [y |-> IF r.ok THEN [y EXCEPT !.x = Begin(@)] ELSE y, v |-> Start(y, r)]
      [] r.e = "tor" -> [y |-> y, v |-> Tor(y, r)]
      [] r.e = "stop" -> [y |-> [y EXCEPT !.x = End(@), !.d = IF r.counts THEN Ended(@, Cfg(y), r.alloc, r.t) ELSE @], v |-> {}]
      [] r.e = "begin" -> [y |-> [y EXCEPT !.x = Begin(@)], v |-> TBegin(y, r)]
      [] r.e = "tlook" -> [y |-> y, v |-> TLook(y, r)]
      [] r.e = "ask" -> [y |-> y, v |-> TAsk(y, r)]
      [] r.e = "out" -> [y |-> [y EXCEPT !.x = End(@), !.d = IF r.counts THEN Ended(@, TDelay(EffectiveTally(F(y))), Scaled(EffectiveTally(R(y)).sig), r.t) ELSE @],
                         v |-> TOut(y, r)]
      [] OTHER -> [y |-> y, v |-> {"unknown-event"}]
Check(y, r) ==
    IF r.e = "reset" THEN
        LET n == [Empty EXCEPT !.kind = r.kind, !.x = NewNode(AsFile(r)), !.names = r.names, !.scn = r.scn, !.skip = FALSE]
            ok == Valid(r.kind, AsFile(r))
        IN [y |-> IF ok /\ r.up THEN n ELSE Skip(n), v |-> V(ok /\ ~r.up, "does-not-begin-with-a-good-file") \cup V(~ok /\ r.up, "begins-with-a-bad-file")]
    ELSE IF y.skip THEN [y |-> y, v |-> {}] ELSE Step(y, r)

Init == l = 1 /\ st = Empty
Next == /\ l <= Len(Trace)
        /\ LET r == Check(st, Trace[l]) IN
           /\ st' = IF r.v = {} THEN r.y ELSE Skip(r.y)
           /\ \A b \in r.v : PrintT("BAD|C24|" \o st'.scn \o "|" \o ToString(l) \o "|" \o b)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT("DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
