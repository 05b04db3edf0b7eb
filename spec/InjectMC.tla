------------------------------ MODULE InjectMC ------------------------------
(* Inject with clients that do anything: C11 as invariants *)
EXTENDS Inject, TLC, Json
CONSTANTS MaxConns, Cfgs, Cover
VARIABLES cfg, s, got, knows, told, hist
vars == <<cfg, s, got, knows, told>>
view == vars
cover == <<cfg, s>>

Log == [n |-> 3, valid |-> <<TRUE, FALSE, TRUE>>, ends |-> <<2, 4, 6>>, pause |-> TRUE]
CfgsAll == {[pw |-> p, ck |-> k] @@ Log : p \in {"none", "ok", "short", "missing"}, k \in {"none", "ok", "bad"}}

Proofs == {"pwhex", "pwquoted", "right", "other", "earlier", "reflect", "badhex", "oddhex", "bare", "empty", "wrong", "prefix", "longer",
           "case", "zero", "truncated", "extended"}
L(k) == [k |-> k, p |-> ""]
Lines == {[k |-> "authenticate", p |-> p] : p \in Proofs}
         \cup {[k |-> "challenge", p |-> p] : p \in {"ok", "long", "badhex", "other"}}
         \cup {L(k) : k \in {"protocolinfo", "quit", "events", "events none", "events unknown", "info fingerprint", "conf privcount",
                             "set privcount", "set unknown", "tmodel", "junk", ""}}

Init == /\ cfg \in Cfgs /\ s = Start
        /\ got = <<>> /\ knows = <<>> /\ told = <<>>
        /\ hist = <<>>
Note(a) == /\ hist' = IF Cover THEN Append(hist, a) ELSE hist
           /\ Cover => PrintT(<<"SCN", ToJson([pw |-> cfg.pw, ck |-> cfg.ck, h |-> hist'])>>)
NewConn ==
    /\ Len(s.conns) < MaxConns /\ s.phase = "idle"
    /\ s' = [s EXCEPT !.conns = Append(@, Conn)]
    /\ knows' = Append(knows, FALSE)
    /\ UNCHANGED <<cfg, got, told>> /\ Note([a |-> "conn"])
Line(i, l) ==
    /\ s.conns[i].st # "closed"
    /\ LET x == Recv(cfg, s, i, l) IN
       /\ s' = Finish(cfg, x.s)
       /\ told' = <<s.conns[i].st, l.k, x.out>>
       \* what the client has shown that it knows
       /\ knows' = [knows EXCEPT ![i] = @ \/ (l.k = "authenticate" /\
                        \/ l.p \in {"pwhex", "pwquoted"} /\ cfg.pw = "ok"
                        \/ l.p = "right" /\ s.conns[i].chal)]
    /\ UNCHANGED <<cfg, got>> /\ Note([a |-> "line", c |-> i, ls |-> <<l>>])
Lost(i) ==
    /\ s.conns[i].st # "closed" /\ s' = Close(s, i) /\ UNCHANGED <<cfg, got, knows, told>> /\ Note([a |-> "lost", c |-> i])
Send ==
    /\ s.phase = "on" /\ ~AtEnd(cfg, s)
    /\ got' = Append(got, <<s.asker, Skip(cfg, s.next)>>)
    /\ s' = Finish(cfg, Deliver(cfg, s))
    /\ UNCHANGED <<cfg, knows, told>> /\ Note([a |-> "run"])
Next == NewConn \/ Send \/ \E i \in 1..Len(s.conns) : Lost(i) \/ \E l \in Lines : Line(i, l)
Spec == Init /\ [][Next]_<<vars, hist>>

Authenticated(i) == s.conns[i].st = "auth"
\* authentication needs a proof, unless there is nothing to prove
NoProofNoAuth == \A i \in 1..Len(s.conns) : Authenticated(i) => knows[i] \/ (cfg.pw = "none" /\ cfg.ck = "none")
\* nothing but the authentication commands is ever answered before
NothingBefore == told # <<>> /\ told[1] # "auth" /\ told[2] \notin {"protocolinfo", "challenge", "authenticate", "quit"}
                 => \A j \in 1..Len(told[3]) : told[3][j] # 250
\* events in the order of the log, once each, and only those in the window
InOrder == \A j \in 1..Len(got) : cfg.valid[got[j][2]] /\ (j > 1 => got[j - 1][2] < got[j][2])
\* events go to a client that is authenticated when they are sent
Recipient == [][\A j \in (Len(got) + 1)..Len(got') : s.conns[got'[j][1]].st = "auth"]_vars
NeverAll == Len(got) < 2
=============================================================================
