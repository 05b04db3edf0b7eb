-------------------------------- MODULE Node --------------------------------
(* A share keeper or a data collector, as its tally server sees it.

   A start request q: [valid, sks, alloc, defer, dflt, own, badshare]
     valid   counters and noise weights are acceptable (module Config)
     sks     how the offered share keepers relate to the configured ones:
             "exact", or anything else
     alloc   the sigmas;  defer  the delay before counting starts
     dflt, own  the noise weight for any relay / for this relay (-1: none)
     badshare   one of the shares for this share keeper does not fit
   Node state: idle, or joined to a round.                                   *)
EXTENDS Delay, FiniteSets, TLC

NoRound == [alloc |-> << >>, start |-> 0, due |-> 0, started |-> FALSE,
            fp |-> 0, link |-> "none", dead |-> FALSE, dflt |-> -1, own |-> -1]
NewNode(kind, cfg) == [kind |-> kind, cfg |-> cfg, d |-> NoDelay, ph |-> "idle", r |-> NoRound]

Joined(n) == n.ph = "joined"
\* why a start request is refused; none: it is accepted
Refusals(n, q, t) ==
    (IF q.valid THEN {} ELSE {"config"})
    \cup (IF n.kind = "dc" /\ q.sks # "exact" THEN {"sks"} ELSE {})
    \cup (IF n.kind = "dc" /\ Joined(n) THEN {"busy"} ELSE {})
    \cup (IF n.kind = "sk" /\ q.badshare THEN {"share"} ELSE {})
    \cup (IF q.valid /\ ~Permitted(n.d, n.cfg, q.alloc, 0, t) THEN {"delay"} ELSE {})
Start(n, q, t) ==
    IF Refusals(n, q, t) # {} THEN n
    ELSE [n EXCEPT !.ph = "joined",
                   !.r = [alloc |-> q.alloc, start |-> t, due |-> t + q.defer, started |-> n.kind = "sk" \/ q.defer = 0,
                          fp |-> 0, link |-> "none", dead |-> FALSE, dflt |-> q.dflt, own |-> q.own]]

Wait(n, t) == IF Joined(n) /\ t >= n.r.due THEN [n EXCEPT !.r.started = TRUE] ELSE n

Counting(n) == Joined(n) /\ n.r.started /\ ~n.r.dead
\* the weight of the relay; "own" is the weight of relay 1
Weight(n) == IF n.r.fp = 1 /\ n.r.own >= 0 THEN n.r.own ELSE n.r.dflt
\* a control connection is made, and relay f answers: the first one is the
\* relay of this round, and without a weight for it the counts are dropped
Tor(n, f) ==
    IF ~Counting(n) \/ n.kind # "dc" THEN n
    ELSE LET m == [n EXCEPT !.r.link = "up", !.r.fp = IF @ = 0 THEN f ELSE @]
         IN IF n.r.fp = 0 /\ Weight(m) < 0 THEN [m EXCEPT !.r.dead = TRUE] ELSE m
\* the relay refuses a connection attempt
Refuse(n) == IF Counting(n) /\ n.r.link # "up" THEN [n EXCEPT !.r.link = "lost"] ELSE n
Drop(n) == IF Counting(n) /\ n.r.link = "up" THEN [n EXCEPT !.r.link = "lost"] ELSE n

\* are there counts to send
Available(n) == Counting(n) /\ (n.kind = "sk" \/ Weight(n) >= 0)
Sends(n, send) == send /\ Available(n)
\* the stop request arrives at t
Stop(n0, send, t) ==
    LET n == Wait(n0, t) IN
    [n EXCEPT !.ph = "idle", !.r = NoRound,
              !.d = IF Sends(n, send) THEN Ended(n.d, n.cfg, n.r.alloc, t) ELSE n.d]
State(n) == IF Joined(n) THEN "active" ELSE "idle"
\* the control connection: only while counting, and made again when it is lost
Controls(n) == IF n.kind = "sk" \/ ~Counting(n) THEN {"none"}
               ELSE CASE n.r.link = "up" -> {"up"}
                      [] n.r.link = "none" -> {"trying"}
                      [] OTHER -> {"none", "trying"}
=============================================================================
