------------------------------ MODULE TallyMC ------------------------------
(* The tally server with data collectors and share keepers that follow the
   protocol, over connections that lose, delay and repeat messages, and that
   may restart at any time.                                                  *)
EXTENDS Tally, Json
Forever == -1
CONSTANTS DCs, SKs, Period, Cont, MaxT, MaxRounds, MaxNet, Faults, Bind, Changes, Waits

Nodes == DCs \cup SKs
Type(u) == IF u \in DCs THEN "dc" ELSE "sk"
A == [c1 |-> 8]
Cfg0 == [period |-> Period, checkin |-> 1, delay |-> 3, always |-> FALSE, tol |-> 2, cont |-> Cont,
         dcth |-> Cardinality(DCs), skth |-> Cardinality(SKs), after |-> 0, alloc |-> A, jit |-> 1]
Fewer == [Cfg0 EXCEPT !.dcth = 1, !.skth = 1]
Less == [Cfg0 EXCEPT !.alloc.c1 = 4]
Later == [Cfg0 EXCEPT !.after = 4]

VARIABLES s, now, own, net, joins, faults, asked
vars == <<s, now, own, net, joins, faults, asked>>
view == <<[s EXCEPT !.out = [i \in DOMAIN @ |-> [@[i] EXCEPT !.cl = << >>]]], now, own, net, joins, faults>>
\* own: what a node is doing: idle, or the join it made and what it was given
\* net: replies on their way;  joins: number of joins so far
Init == /\ s = [NewTally(Cfg0, 0, 1) EXCEPT !.cl = [u \in Nodes |-> [type |-> Type(u), state |-> "idle", fp |-> 0, alive |-> 0, rtt |-> 0, skew |-> 0, key |-> u]]]
        /\ now = 0 /\ own = [u \in Nodes |-> [j |-> 0, got |-> << >>]] /\ net = {} /\ joins = 0 /\ faults = 0
        /\ asked = [a |-> "none"]
Says(u) == [type |-> Type(u), state |-> IF own[u].j = 0 THEN "idle" ELSE "active", fp |-> 0, rtt |-> 0, skew |-> 0, key |-> u, bad |-> FALSE]
Fault == faults < Faults /\ faults' = faults + 1
\* u reports, and acts on what it is asked; its reply is on its way, or the
\* request was lost
Visit(u) ==
    LET s1 == Report(s, u, Says(u), now)
        q == Ask(s1, u)
        c == CHOOSE c \in 1..(MaxNet + 1) : \A m \in net : m.u = u => m.c # c
        msg(b) == b @@ [u |-> u, c |-> c]
    IN
    /\ \A m \in net : m.u # u \/ Faults > 0
    /\ s' = Asked(s1, u, c, q) /\ UNCHANGED now
    /\ asked' = [a |-> "ask", u |-> u, q |-> q]
    /\ \/ /\ q.k = "checkin" /\ UNCHANGED <<own, net, joins, faults>>
       \/ /\ q.k # "checkin" /\ Fault /\ UNCHANGED <<own, net, joins>>
       \/ /\ q.k = "startdc" /\ Cardinality(net) < MaxNet
          /\ IF own[u].j # 0 THEN net' = net \cup {msg([k |-> "start", ok |-> FALSE, sh |-> << >>])} /\ UNCHANGED <<own, joins>>
             ELSE /\ joins' = joins + 1 /\ own' = [own EXCEPT ![u] = [j |-> joins + 1, got |-> << >>]]
                  /\ net' = net \cup {msg([k |-> "start", ok |-> TRUE, sh |-> [x \in DOMAIN q.sks |-> joins + 1]])}
          /\ UNCHANGED faults
       \/ /\ q.k = "startsk" /\ Cardinality(net) < MaxNet
          /\ own' = [own EXCEPT ![u] = [j |-> 1, got |-> q.shares]]
          /\ net' = net \cup {msg([k |-> "start", ok |-> TRUE, sh |-> << >>])}
          /\ UNCHANGED <<joins, faults>>
       \/ /\ q.k = "stop" /\ Cardinality(net) < MaxNet
          /\ own' = [own EXCEPT ![u] = [j |-> 0, got |-> << >>]]
          /\ net' = net \cup {msg([k |-> "stop", ok |-> TRUE, kind |-> IF q.send /\ own[u].j # 0 THEN "good" ELSE "none", val |-> own[u]])}
          /\ UNCHANGED <<joins, faults>>
\* a reply arrives (perhaps not for the last time), or never
Deliver(m) ==
    \* Bind FALSE: what happens when replies are not tied to requests
    LET x == IF Bind \/ ~Running(s) THEN s ELSE [s EXCEPT !.p.req = Put(@, m.u, m.c), !.p.sreq = @ \cup {<<m.u, m.c>>}] IN
    /\ s' = IF m.k = "start" THEN StartReply(x, m.u, m.c, m.ok, m.sh) ELSE StopReply(x, m.u, m.c, m.ok, m.kind, m.val)
    /\ \/ net' = net \ {m} /\ UNCHANGED faults
       \/ Fault /\ UNCHANGED net
    /\ asked' = [a |-> "reply"]
    /\ UNCHANGED <<now, own, joins>>
Lose(m) == Fault /\ net' = net \ {m} /\ asked' = [a |-> "lose"] /\ UNCHANGED <<s, now, own, joins>>
Restart(u) == own[u].j # 0 /\ Fault /\ own' = [own EXCEPT ![u] = [j |-> 0, got |-> << >>]] /\ asked' = [a |-> "restart"] /\ UNCHANGED <<s, now, net, joins>>
Pass(d) ==
    /\ now + d <= MaxT /\ now' = now + d
    /\ s' = Wait(s, now + d)
    /\ s'.rounds <= MaxRounds
    /\ asked' = [a |-> "pass", over |-> Running(s) /\ Over(s, now'),
                 began |-> s'.rounds > s.rounds, ended |-> s'.done > s.done]
    /\ UNCHANGED <<own, net, joins, faults>>
Change(f) == /\ s.file # f /\ Fault /\ s' = [s EXCEPT !.file = f] /\ asked' = [a |-> "change"] /\ UNCHANGED <<now, own, net, joins>>
Next == \/ \E u \in Nodes : Visit(u) \/ Restart(u)
        \/ \E m \in net : Deliver(m) \/ Lose(m)
        \/ \E d \in Waits : Pass(d)
        \/ \E f \in (IF Changes THEN {Fewer, Less, Later} ELSE {}) : Change(f)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Outs == {s.out[i] : i \in DOMAIN s.out}
\* C01, C02: what is published is made of the counts of every participant, and
\* the blinding cancels: each share keeper holds the share of the very join
\* whose counts each data collector reported
Complete == \A o \in Outs : o.tally => DOMAIN o.final = o.dcs \cup o.sks
Cancels == \A o \in Outs : o.tally =>
    \A k \in o.sks : DOMAIN o.final[k].val.got = o.dcs /\ \A d \in o.dcs : o.final[k].val.got[d] = o.final[d].val.j
\* a join's counts enter one tally only
Once == \A a, b \in DOMAIN s.out : a # b /\ s.out[a].tally /\ s.out[b].tally =>
    \A d \in s.out[a].dcs \cap s.out[b].dcs : s.out[a].final[d].val.j # s.out[b].final[d].val.j
\* C03
StartsOnly == [][asked'.a = "ask" /\ asked'.q.k \in {"startdc", "startsk"} =>
    /\ Running(s) /\ asked'.u \in Members(s.p) /\ asked'.u \in s.p.need
    /\ asked'.q.k = "startsk" => DOMAIN asked'.q.shares = s.p.dcs]_vars
Fixed == [][Running(s) /\ Running(s') => s'.p.dcs = s.p.dcs /\ s'.p.sks = s.p.sks /\ s'.p.cfg = s.p.cfg]_vars
Phases == <<"none", "sdc", "ssk", "run", "stop">>
Rank(p) == CHOOSE i \in 1..5 : Phases[i] = p.ph
Ordered == [][s'.p # s.p => \/ s'.p.ph = "none" /\ s.p.ph = "stop"
                            \/ s'.p.ph = "sdc" /\ s.p.ph = "none"
                            \/ s.rounds = s'.rounds /\ Rank(s'.p) >= Rank(s.p)]_vars
StartedRight == s.p.ph \in {"ssk", "run"} => \A k \in s.p.sks : DOMAIN s.p.shares[k] = s.p.dcs
\* C12
CountsRounds == s.done = Len(s.out) /\ s.rounds = s.done + (IF Running(s) THEN 1 ELSE 0)
Enough == s.file.cont = -1 \/ s.rounds <= s.file.cont
EndsOnly == [][asked'.a = "pass" /\ s'.p.ph = "stop" /\ s.p.ph # "stop" => asked'.over]_vars
BeginsOnly == [][asked'.a = "pass" /\ asked'.began => ~asked'.ended /\ CanStart(Bury(Reload(s), now'), now')]_vars
\* C07
Delayed == \A i \in DOMAIN s.out : \A j \in DOMAIN s.out :
    (i < j /\ ~s.out[i].tally = FALSE /\ \A k \in (i + 1)..(j - 1) : ~s.out[k].tally)
    => s.out[j].begin >= s.out[i].end
Vac1 == ~(Len(s.out) >= 2 /\ s.out[1].tally /\ s.out[2].tally)
Vac2 == ~(Len(s.out) >= 2 /\ ~s.out[1].tally /\ s.out[2].tally)
=============================================================================
