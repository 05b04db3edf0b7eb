------------------------------ MODULE TorCtlMC ------------------------------
(* TorCtl against an arbitrary relay.  The relay keeps what the collector has
   asked of it (on, evs); what passes between a collector and a relay is checked
   against the guarantees of C10.  With Cover = TRUE every transition is printed
   with a shortest behaviour that reaches it: a transition cover. *)
EXTENDS TorCtl, TLC, Json
CONSTANTS Cfgs, Methods, CookieKinds, Wants, Cover

CfgsAll == [pw : {"none", "ok", "short", "long", "missing"}, setconf : BOOLEAN, rate : BOOLEAN, cells : BOOLEAN]
CfgsFew == {[pw |-> "ok", setconf |-> TRUE, rate |-> FALSE, cells |-> FALSE],
            [pw |-> "none", setconf |-> FALSE, rate |-> TRUE, cells |-> TRUE],
            [pw |-> "short", setconf |-> TRUE, rate |-> TRUE, cells |-> FALSE],
            [pw |-> "missing", setconf |-> TRUE, rate |-> FALSE, cells |-> TRUE],
            [pw |-> "long", setconf |-> FALSE, rate |-> FALSE, cells |-> FALSE]}
MethodsAll == SUBSET {"SAFECOOKIE", "HASHEDPASSWORD", "NULL", "COOKIE"}
CookiesAll == {"none", "ok", "short", "long", "missing"}
WantsTwo == {{"PRIVCOUNT_STREAM_ENDED"}, {"PRIVCOUNT_CONNECTION_CLOSE", "PRIVCOUNT_CIRCUIT_CLOSE"}}

VARIABLES cfg, want, c, proved, authed, found, on, evs, said, hist
vars == <<cfg, want, c, proved, authed, found, on, evs, said>>
view == vars
cover == <<cfg, want, c>>

L(k) == [k |-> k]
Plain == {L(k) : k \in {"pi", "ver", "ok", "ok2", "info", "pcv", "epc1", "epc0", "nsbegin", "nsgone",
                        "err", "nopcv", "noserver", "unk", "noaddr", "nsunk", "nss", "nsend", "junk", "bw"}}
AuthLines == {[k |-> "auth", m |-> m, ck |-> ck] : m \in Methods, ck \in CookieKinds}
ChalLines == {[k |-> "chal", h |-> h, n |-> "ok"] : h \in {"right", "wrongkey", "otherclient", "othernonce", "clientkey",
                                                           "zero", "short", "long", "badhex", "none", "otherfile"}}
             \cup {[k |-> "chal", h |-> "right", n |-> n] : n \in {"short", "long", "badhex", "none"}}
FpLines == {[k |-> "fp", v |-> v] : v \in {"ok", "short", "bad", "empty"}}
EvLines == {[k |-> "ev", t |-> t, d |-> d] : t \in UNION Wants \cup {"UNKNOWN_EVENT"}, d \in {"full", "empty", "reject"}}
\* lines that mean something in this state, and some that do not
Lines == Plain \cup EvLines
         \cup (IF c.st \in {"info"} THEN AuthLines ELSE {[k |-> "auth", m |-> {"NULL"}, ck |-> "none"]})
         \cup (IF c.st \in {"chal"} THEN ChalLines ELSE {[k |-> "chal", h |-> "right", n |-> "ok"]})
         \cup (IF c.st = "disc" THEN FpLines ELSE {[k |-> "fp", v |-> "ok"]})

Init == /\ cfg \in Cfgs /\ want \in Wants \cup {NoRound}
        /\ c = Fresh /\ proved = FALSE /\ authed = FALSE /\ found = FALSE
        /\ on = FALSE /\ evs = {} /\ said = {} /\ hist = IF Cover THEN <<[a |-> "init", w |-> IF want = NoRound THEN {} ELSE want]>> ELSE <<>>

\* what the commands make of the relay: off before on, as they are sent
SetEvents(out) == {x \in out : x.c = "SETEVENTS"}
Tell(out) ==
    /\ said' = out
    /\ on' = IF Cmd("SETCONF", "EnablePrivCount=1") \in out THEN TRUE
             ELSE IF Cmd("SETCONF", "EnablePrivCount=0") \in out THEN FALSE ELSE on
    /\ evs' = IF SetEvents(out) = {} THEN evs ELSE UNION {x.e : x \in SetEvents(out)}

Note(step) ==
    /\ hist' = IF Cover THEN Append(hist, step) ELSE hist
    /\ Cover => PrintT(<<"SCN", ToJson([cfg |-> cfg, h |-> hist'])>>)

Init0(r) == IF r.shut THEN [r EXCEPT !.out = Off(cfg) \cup {Quit}] ELSE r

Line(l) ==
    /\ c.st # "closed"
    /\ \E r \in (LET x == Recv(cfg, want, c, l) IN {x} \cup (IF x.may THEN {Shut(c)} ELSE {})) :
        LET q == Init0(r) IN
        /\ c' = q.c
        /\ Tell(q.out)
        /\ proved' = (proved \/ (l.k = "chal" /\ l.h = "right" /\ l.n = "ok" /\ c.st = "chal" /\ c.cookie = "ok"))
        /\ authed' = (authed \/ (c.st = "auth" /\ l.k = "ok"))
        /\ found' = (found \/ (c.st = "disc" /\ l.k = "fp" /\ l.v = "ok"))
        /\ UNCHANGED <<cfg, want>>
        /\ Note([a |-> "line", l |-> l])
BeginA(w) ==
    /\ want = NoRound /\ c.st # "closed"
    /\ want' = w
    /\ LET r == Begin(cfg, w, c) IN c' = r.c /\ Tell(r.out)
    /\ UNCHANGED <<cfg, proved, authed, found>>
    /\ Note([a |-> "start", w |-> w])
EndA ==
    /\ want # NoRound /\ c.st # "closed"
    /\ want' = NoRound
    /\ LET r == End(cfg, c) IN c' = r.c /\ Tell(r.out)
    /\ UNCHANGED <<cfg, proved, authed, found>>
    /\ Note([a |-> "stop"])

Next == \/ \E l \in Lines : Line(l)
        \/ \E w \in Wants : BeginA(w)
        \/ EndA
Spec == Init /\ [][Next]_<<vars, hist>>

----------------------------------------------------------------------------
HasCmd(n, v) == \E x \in said : x.c = n /\ x.v = v
\* the proof of the cookie goes only to a relay that has proved it knows it
ProofForProof == HasCmd("AUTHENTICATE", "hash") => proved
\* nothing is asked of the relay before it has accepted the collector ...
NothingEarly == (on \/ evs # {}) => authed /\ found
\* ... the relay is left as it was when the collection or the connection ends
LeftOff == (c.st \in {"closed", "wait", "disc", "auth", "chal", "info"}) => ~on /\ evs = {}
\* ... events asked for are those of the collection, and of no other
OnlyAsked == c.st = "proc" => evs = c.act /\ want = c.act
\* ... and the relay's configuration is only touched when that is permitted
Permitted == ~cfg.setconf => ~\E x \in said : x.c = "SETCONF"
\* the weaker methods are used only when the stronger cannot be
Strongest == [][(\E x \in said' \ said : x.c = "AUTHENTICATE" /\ x.v \in {"pw", "none"})
                => ~("SAFECOOKIE" \in c.offered /\ c.cookie # "none")]_vars
NoCountOutside == [][\A l \in EvLines : Recv(cfg, want, c, l).n > 0 => c.st = "proc" /\ l.t \in evs]_vars
\* vacuity
NeverOn == ~on
=============================================================================
