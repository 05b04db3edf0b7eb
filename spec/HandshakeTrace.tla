--------------------------- MODULE HandshakeTrace ---------------------------
(* Monitor: are the recorded exchanges of the real protocol classes behaviours
   of Handshake?  One trace line = one data segment delivered to the node under
   test (a sequence of protocol lines, possibly with an unterminated tail) and
   everything observable that it caused.  Verdicts are total: every line of the
   trace gets one, a disagreement names the property and the clause.          *)
EXTENDS Handshake, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st, bad
vars == <<l, st, bad>>

\* st: conns (id -> connection), seen (names of 32-byte values seen so far),
\* attacked: an unauthenticated connection has misbehaved in this scenario
Empty == [conns |-> << >>, seen |-> {}, attacked |-> FALSE, scn |-> "", skip |-> FALSE, key |-> "K"]

Names(line) == {line[i].v : i \in {j \in 1..Len(line) : line[j].k \in {"c", "m"}}}
RECURSIVE NamesAll(_)
NamesAll(ls) == IF ls = <<>> THEN {} ELSE Names(Head(ls)) \cup NamesAll(Tail(ls))

IsRefusal(line) == /\ Len(line) = 5 /\ Word(line, 5) = "FAIL" /\ IsHandshakeWord(line)

\* does the observed reply `o` (sequence of lines) match the shape; returns the rest
MatchOut(shape, o, c2, key, seen) ==
  CASE shape.k = "none" -> [ok |-> TRUE, rest |-> o, c |-> c2]
    [] shape.k = "refuse" ->
         IF o # <<>> /\ IsRefusal(o[1]) THEN [ok |-> TRUE, rest |-> Tail(o), c |-> c2]
         ELSE [ok |-> TRUE, rest |-> o, c |-> c2]
    [] shape.k = "line" ->
         IF o # <<>> /\ o[1] = shape.l THEN [ok |-> TRUE, rest |-> Tail(o), c |-> c2]
         ELSE [ok |-> FALSE, rest |-> o, c |-> c2]
    [] shape.k = "h2" ->
         IF /\ o # <<>> /\ ValidH2(o[1], key, c2.sc) /\ o[1][5].v \notin seen
         THEN [ok |-> TRUE, rest |-> Tail(o), c |-> [c2 EXCEPT !.cc = o[1][5].v]]
         ELSE [ok |-> FALSE, rest |-> o, c |-> c2]
    [] shape.k = "msg" ->
         IF o # <<>> /\ Word(o[1], 1) \in shape.s THEN [ok |-> TRUE, rest |-> Tail(o), c |-> c2]
         ELSE [ok |-> FALSE, rest |-> o, c |-> c2]
    [] OTHER -> [ok |-> TRUE, rest |-> <<>>, c |-> c2]

\* all ways to explain the observed output of a segment; a result is
\* [c, rest]; rest = <<>> when every observed line is explained
RECURSIVE Explain(_, _, _, _, _)
Explain(c, segs, o, key, seen) ==
    IF segs = <<>> \/ c.ph = "closed" THEN {[c |-> c, rest |-> o, auth |-> c.ph = "ok"]}
    ELSE UNION {LET m == MatchOut(p.out, o, p.c, key, seen)
                IN IF m.ok THEN {[x EXCEPT !.auth = @ \/ c.ph = "ok"] :
                                 x \in Explain(m.c, Tail(segs), m.rest, key, seen \cup NamesAll(<<segs[1].l>>))}
                           ELSE {}
                : p \in Recv(c, key, segs[1].l, segs[1].n, segs[1].p)}

\* an unterminated tail longer than the limit closes an unauthenticated connection
WithTail(c, tail) == IF c.ph \notin {"ok", "closed"} /\ tail > LIMIT THEN Shut(c) ELSE c

RecvCheck(s, r) ==
    LET id == r.c
        c == s.conns[id]
        rs == Explain(c, r.lines, r.out, s.key, s.seen)
        full == {x \in rs : x.rest = <<>>}
        good == {x \in full : (WithTail(x.c, r.tail).ph = "closed") = r.closed}
        pre == c.ph # "ok"
        \* could the connection be authenticated after this segment?
        auth == \E x \in rs : x.auth
        unauth == pre /\ ~auth
        early == \E i \in 1..Len(r.out) : Word(r.out[i], 1) \in {"STATUS", "START", "STOP", "CHECKIN"}
        verdict ==
           (IF r.exit THEN (IF unauth THEN {<<"C09", "node-exit">>} ELSE {<<"C08", "node-exit">>}) ELSE {})
           \cup (IF unauth /\ early THEN {<<"C08", "accepted-without-proof">>} ELSE {})
           \cup (IF unauth /\ r.changed THEN {<<"C09", "state-changed">>, <<"C08", "acted-without-proof">>} ELSE {})
           \cup (IF ~r.exit /\ good = {} /\ unauth /\ ~early
                 THEN IF full # {} \/ (rs # {} /\ \A x \in rs : WithTail(x.c, r.tail).ph = "closed")
                      THEN IF ~r.closed THEN {<<"C09", "not-closed">>}
                           ELSE {<<"C09", "wrong-reply">>, <<"C08", "wrong-reply">>}
                      ELSE {<<"C08", "handshake-reply">>} \cup (IF s.attacked THEN {<<"C09", "other-connection">>} ELSE {})
                 ELSE {})
           \cup (IF ~r.exit /\ good = {} /\ ~unauth
                 THEN {<<"C08", "authenticated-exchange">>}
                      \cup (IF s.attacked THEN {<<"C09", "other-connection">>} ELSE {}) ELSE {})
           \cup (IF r.others THEN {<<"C09", "other-connection-disturbed">>} ELSE {})
        c2 == IF good # {} THEN (CHOOSE x \in good : TRUE).c ELSE c
        c3 == WithTail(c2, r.tail)
        seen2 == s.seen \cup NamesAll(r.out) \cup NamesAll([i \in 1..Len(r.lines) |-> r.lines[i].l])
    IN [v |-> verdict,
        s |-> [s EXCEPT !.conns[id] = c3, !.seen = seen2,
                        !.attacked = @ \/ (pre /\ c3.ph = "closed")]]

OpenCheck(s, r) ==
    LET fresh == /\ Len(r.out) = 1 /\ ValidH1(r.out[1]) /\ r.out[1][5].v \notin s.seen
        okS == r.role = "S" /\ fresh
        okC == r.role = "C" /\ r.out = <<>>
        v == IF okS \/ okC THEN {}
             ELSE {<<"C08", "opening">>} \cup (IF s.attacked THEN {<<"C09", "other-connection">>} ELSE {})
        sc == IF okS THEN r.out[1][5].v ELSE ""
    IN [v |-> v \cup (IF r.exit THEN {<<"C09", "node-exit">>} ELSE {}),
        s |-> [s EXCEPT !.conns = (r.c :> Conn(r.role, sc)) @@ s.conns,
                        !.seen = @ \cup NamesAll(r.out)]]

Check(s, r) ==
    CASE r.e = "reset" -> [v |-> {}, s |-> [Empty EXCEPT !.scn = r.scn, !.key = r.key]]
      [] s.skip -> [v |-> {}, s |-> s]
      [] r.e = "open" -> OpenCheck(s, r)
      [] r.e = "recv" -> RecvCheck(s, r)
      [] OTHER -> [v |-> {<<"C08", "unknown-event">>, <<"C09", "unknown-event">>}, s |-> s]

Init == l = 1 /\ st = Empty /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET r == Check(st, Trace[l]) IN
           /\ st' = IF r.v = {} THEN r.s ELSE [r.s EXCEPT !.skip = TRUE]
           /\ \A b \in r.v : PrintT("BAD|" \o b[1] \o "|" \o st'.scn \o "|" \o ToString(l) \o "|" \o b[2])
           /\ bad' = bad + Cardinality(r.v)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => PrintT("DONE|" \o ToString(l))
Spec == Init /\ [][Next]_vars
=============================================================================
