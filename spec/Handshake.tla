----------------------------- MODULE Handshake -----------------------------
(* The PrivCount handshake and the gate it guards, for both roles.

   A token is [k, v]: k = "w" for a literal word, "c" for a well-formed 32-byte
   value in base64 (v names it), "m" for such a value that is a known HMAC
   (v = Mac(...)), "x" for anything else.  A line is a sequence of tokens.

   A connection is [role, ph, sc, cc]:
     server  w2 --valid H2--> w4 --H4 SUCCESS--> ok --CHECKIN--> closed
     client  w1 --H1--> w3 --valid H3--> ok --CHECKIN--> closed
   and closed after anything else before ok.

   Recv(c, line, n) is the set of outcomes [ph, cc, sc, out] that the protocol
   permits; out names the shape of the reply. Used both by the exhaustive model
   (HandshakeMC) and by the monitor of recorded traces (HandshakeTrace). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

W(s) == [k |-> "w", v |-> s]
C(s) == [k |-> "c", v |-> s]
M(s) == [k |-> "m", v |-> s]
Mac(key, stage, sc, cc) == "M(" \o key \o "," \o stage \o "," \o sc \o "," \o cc \o ")"

TOK1 == "HANDSHAKE1-SERVER-COOKIE"
TOK2 == "HANDSHAKE2-CLIENT-COOKIE-HMAC"
TOK3 == "HANDSHAKE3-SERVER-HMAC"
TOK4 == "HANDSHAKE4-CLIENT-VERIFY"
HSTOKENS == {TOK1, TOK2, TOK3, TOK4}
VERSION == "PRIVCOUNT-100"
HTYPE == "HMAC-SHA256"
LIMIT == 200       \* longest line that may be accepted before authentication

Line1(sc) == <<W(TOK1), W(VERSION), W("SERVER"), W(HTYPE), sc>>
Line2(cc, mac) == <<W(TOK2), W(VERSION), W("CLIENT"), W(HTYPE), cc, mac>>
Line3(mac) == <<W(TOK3), W(VERSION), W("SERVER"), W(HTYPE), mac>>
Line4(msg) == <<W(TOK4), W(VERSION), W("CLIENT"), W(HTYPE), W(msg)>>

Word(line, i) == IF i <= Len(line) /\ line[i].k = "w" THEN line[i].v ELSE ""
PrefixOK(line, tok, role) ==
    /\ Len(line) >= 4
    /\ Word(line, 1) = tok /\ Word(line, 2) = VERSION
    /\ Word(line, 3) = role /\ Word(line, 4) = HTYPE
Is32(t) == t.k \in {"c", "m"}
IsHandshakeWord(line) == Word(line, 1) \in HSTOKENS

\* what each kind of handshake line must look like to be believed
ValidH1(line) == PrefixOK(line, TOK1, "SERVER") /\ Len(line) = 5 /\ Is32(line[5])
ValidH2(line, key, sc) ==
    /\ PrefixOK(line, TOK2, "CLIENT") /\ Len(line) = 6
    /\ Is32(line[5]) /\ line[5].v # sc
    /\ line[6] = M(Mac(key, "2", sc, line[5].v))
ValidH3(line, key, sc, cc) ==
    /\ PrefixOK(line, TOK3, "SERVER") /\ Len(line) = 5
    /\ line[5] = M(Mac(key, "3", sc, cc))
ValidH4(line) == PrefixOK(line, TOK4, "CLIENT") /\ Len(line) = 5 /\ Word(line, 5) = "SUCCESS"

Conn(role, sc) == [role |-> role, ph |-> IF role = "S" THEN "w2" ELSE "w1", sc |-> sc, cc |-> ""]
Shut(c) == [c EXCEPT !.ph = "closed"]

\* replies, by shape: none | fail-or-none | H1.. | a message of the protocol proper
OutNone == [k |-> "none"]
OutRefuse == [k |-> "refuse"]                \* at most one FAIL line
OutLine(l) == [k |-> "line", l |-> l]
OutH2 == [k |-> "h2"]                        \* H2 with a fresh cookie
OutMsg(s) == [k |-> "msg", s |-> s]          \* one line whose first word is in s
OutAny == [k |-> "any"]

Close(c) == {[c |-> Shut(c), out |-> OutRefuse]}

\* n: length of the line in bytes; padded: it is not in canonical form
ServerRecv(c, key, line, n, padded) ==
  CASE c.ph \in {"w2", "w4"} ->
         IF n > LIMIT THEN Close(c)
         ELSE IF ValidH2(line, key, c.sc)
         THEN {[c |-> [c EXCEPT !.ph = "w4", !.cc = line[5].v],
                out |-> OutLine(Line3(M(Mac(key, "3", c.sc, line[5].v))))]}
              \cup (IF c.ph = "w4" \/ padded THEN Close(c) ELSE {})
         ELSE IF ValidH4(line) /\ c.ph = "w4"
         THEN {[c |-> [c EXCEPT !.ph = "ok"], out |-> OutMsg({"STATUS"})]}
              \cup (IF padded THEN Close(c) ELSE {})
         ELSE Close(c)
    [] c.ph = "ok" ->
         IF IsHandshakeWord(line) THEN {[c |-> c, out |-> OutAny], [c |-> Shut(c), out |-> OutAny]}
         ELSE IF Word(line, 1) = "STATUS" /\ Len(line) > 1
         THEN {[c |-> c, out |-> OutMsg({"CHECKIN", "START", "STOP"})]}
         ELSE IF Word(line, 1) = "CHECKIN" THEN {[c |-> Shut(c), out |-> OutNone]}
         ELSE {[c |-> c, out |-> OutAny], [c |-> Shut(c), out |-> OutAny]}
    [] OTHER -> {[c |-> c, out |-> OutNone]}

ClientRecv(c, key, line, n, padded) ==
  CASE c.ph \in {"w1", "w3"} ->
         IF n > LIMIT THEN Close(c)
         ELSE IF ValidH1(line)
         THEN {[c |-> [c EXCEPT !.ph = "w3", !.sc = line[5].v], out |-> OutH2]}
              \cup (IF c.ph = "w3" \/ padded THEN Close(c) ELSE {})
         ELSE IF c.ph = "w3" /\ ValidH3(line, key, c.sc, c.cc)
         THEN {[c |-> [c EXCEPT !.ph = "ok"], out |-> OutLine(Line4("SUCCESS"))]}
              \cup (IF padded THEN Close(c) ELSE {})
         ELSE Close(c)
    [] c.ph = "ok" ->
         IF IsHandshakeWord(line) THEN {[c |-> c, out |-> OutAny], [c |-> Shut(c), out |-> OutAny]}
         ELSE IF Word(line, 1) = "STATUS" /\ Len(line) > 2
         THEN {[c |-> c, out |-> OutMsg({"STATUS"})]}
         ELSE IF Word(line, 1) = "CHECKIN"
         THEN {[c |-> Shut(c), out |-> OutMsg({"CHECKIN"})]}
         ELSE {[c |-> c, out |-> OutAny], [c |-> Shut(c), out |-> OutAny]}
    [] OTHER -> {[c |-> c, out |-> OutNone]}

Recv(c, key, line, n, padded) ==
    IF c.role = "S" THEN ServerRecv(c, key, line, n, padded)
                    ELSE ClientRecv(c, key, line, n, padded)

Authenticated(c) == c.ph = "ok"
=============================================================================
