---------------------------- MODULE HandshakeMC ----------------------------
(* Dolev-Yao exploration of Handshake: honest nodes share key K; the network is
   the attacker, which sees every line, can send any line it can build from
   what it has seen, from its own cookie "a" and from its own key X, on every
   connection, in any order.  Connections in Conns: names -> role.            *)
EXTENDS Handshake, Json

CONSTANTS ServerConns, ClientConns, \* names
          KeyOf,                    \* name -> "K" (honest secret) or "X"
          RecordHist

Conns == ServerConns \cup ClientConns
Fresh(name, n) == "n" \o name \o ToString(n)

VARIABLES conn,        \* name -> connection state
          used,        \* cookies of client connections used so far (fresh counter)
          know,        \* what the attacker has: tokens
          proofs,      \* MACs made by honest nodes
          hist
vars == <<conn, used, know, proofs>>
view == vars

SC(name) == "n" \o name
Init == /\ conn = [n \in Conns |-> Conn(IF n \in ServerConns THEN "S" ELSE "C",
                                        IF n \in ServerConns THEN SC(n) ELSE "")]
        /\ used = [n \in ClientConns |-> 0]
        /\ know = {C(SC(n)) : n \in ServerConns} \cup {C("a")}
        /\ proofs = {}
        /\ hist = <<>>

Cookies == {t \in know : t.k = "c"}
Macs == {t \in know : t.k = "m"}
\* MACs the attacker can make itself, with its own key
XMacs(n) == LET c == conn[n] IN
     IF c.role = "S" THEN {M(Mac("X", "2", c.sc, "a"))} ELSE {M(Mac("X", "3", c.sc, c.cc))}

\* lines the attacker can put on connection n; the values it can use are what it
\* has seen, so replay, reflection and relaying are all here
Lines(n) ==
    {Line1(t) : t \in Cookies}
    \cup {Line2(t, m) : t \in Cookies, m \in Macs \cup XMacs(n)}
    \cup {Line3(m) : m \in Macs \cup XMacs(n)}
    \cup {Line4("SUCCESS"), Line4("FAIL"), <<W("STATUS"), W("t"), W("{}")>>,
          <<W("START"), W("{}")>>, <<W("CHECKIN"), W("3003")>>, <<W("GARBAGE")>>}

\* the fresh lines an honest node may emit for an outcome
Emit(n, o) ==
    IF o.out.k = "line" THEN {t \in {o.out.l[i] : i \in 1..Len(o.out.l)} : t.k \in {"c", "m"}}
    ELSE IF o.out.k = "h2"
    THEN {C(Fresh(n, used[n])), M(Mac(KeyOf[n], "2", o.c.sc, Fresh(n, used[n])))}
    ELSE {}

Send(n, line) ==
    /\ conn[n].ph # "closed"
    /\ ~(conn[n].ph = "ok" /\ IsHandshakeWord(line))
    /\ \E o \in Recv(conn[n], KeyOf[n], line, 150, FALSE) :
        /\ o.out.k = "h2" => used[n] < 2
        /\ LET c2 == IF o.out.k = "h2" THEN [o.c EXCEPT !.cc = Fresh(n, used[n])] ELSE o.c
           IN conn' = [conn EXCEPT ![n] = c2]
        /\ know' = know \cup Emit(n, o)
        /\ proofs' = proofs \cup {t.v : t \in {e \in Emit(n, o) : e.k = "m"}}
        /\ used' = IF o.out.k = "h2" THEN [used EXCEPT ![n] = @ + 1] ELSE used
        /\ hist' = IF RecordHist THEN Append(hist, [c |-> n, line |-> line]) ELSE hist
        /\ RecordHist => PrintT(<<"SCN", ToJson(hist')>>)

Next == \E n \in Conns : \E line \in Lines(n) : Send(n, line)
Spec == Init /\ [][Next]_<<vars, hist>>

----------------------------------------------------------------------------
\* C08: an authenticated server connection means an honest holder of the key
\* proved it for this connection's cookie; the same for the client, for its own
\* fresh cookie, and the proof came from a server
ServerAgreement == \A n \in ServerConns : Authenticated(conn[n]) =>
    \E m \in ClientConns : KeyOf[m] = KeyOf[n]
        /\ Mac(KeyOf[n], "2", conn[n].sc, conn[n].cc) \in proofs
ClientAgreement == \A n \in ClientConns : Authenticated(conn[n]) =>
    \E m \in ServerConns : KeyOf[m] = KeyOf[n] /\ conn[m].sc = conn[n].sc
        /\ Mac(KeyOf[n], "3", conn[n].sc, conn[n].cc) \in proofs
\* no two connections of one role agree on the same pair of cookies
Injective == \A a, b \in Conns : a # b /\ conn[a].role = conn[b].role
    /\ Authenticated(conn[a]) /\ Authenticated(conn[b])
    => <<conn[a].sc, conn[a].cc>> # <<conn[b].sc, conn[b].cc>>
\* C09: a closed connection does not change any other one (by construction of Send)
OthersUntouched == [][\E n \in Conns : \A m \in Conns : m # n => conn'[m] = conn[m]]_vars
\* vacuity: both roles can be authenticated
NotBoth == ~(\E n \in ServerConns, m \in ClientConns : Authenticated(conn[n]) /\ Authenticated(conn[m]))
AllK == [n \in Conns |-> "K"]
=============================================================================
