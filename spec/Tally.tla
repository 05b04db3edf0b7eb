-------------------------------- MODULE Tally --------------------------------
(* The tally server: the nodes it knows, the round it runs, what it asks of
   each node that reports its status, and what it publishes.

   cfg: period, checkin  the collection and check-in periods
        delay, always, tol, alloc   the noise allocation and its delay (Delay)
        cont   the number of rounds to run (-1: without end)
        dcth, skth   how many nodes a round needs;  after  the earliest start
        jit    the allowance for the jitter of round trips
   cl: node -> [type, state, fp (0: unknown), alive, rtt, skew, key]
   p:  the round under way: ph in sdc (data collectors start), ssk (share
       keepers start), run, stop; need: who has not answered the start request,
       counts: who has not answered the stop request;
       shares: sk -> dc -> share;  final: node -> counts                      *)
EXTENDS Delay, FiniteSets, Sequences, TLC

NoPhase == [ph |-> "none"]
NewTally(cfg, t, step) ==
    [cfg |-> cfg, file |-> cfg, good |-> TRUE, next |-> t + step, step |-> step,
     cl |-> << >>, p |-> NoPhase, done |-> 0, rounds |-> 0, d |-> NoDelay, out |-> << >>]

Put(f, x, v) == (x :> v) @@ f
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
Running(s) == s.p.ph # "none"
Members(p) == p.dcs \cup p.sks
Who(s, type, state) == {u \in DOMAIN s.cl : s.cl[u].type = type /\ s.cl[u].state = state}

----------------------------------------------------------------------------
\* node u reports its status; unusable versions are ignored, and a fingerprint
\* that is known is kept
Report(s, u, r, t) ==
    IF r.bad THEN s
    ELSE LET fp == IF u \in DOMAIN s.cl /\ s.cl[u].fp # 0 THEN s.cl[u].fp ELSE r.fp IN
         [s EXCEPT !.cl = Put(@, u, [type |-> r.type, state |-> r.state, fp |-> fp, alive |-> t,
                                     rtt |-> r.rtt, skew |-> r.skew, key |-> r.key])]
\* what it is asked in return
Ask(s, u) ==
    IF ~Running(s) THEN
        IF u \in DOMAIN s.cl /\ s.cl[u].state = "active" THEN [k |-> "stop", send |-> FALSE] ELSE [k |-> "checkin"]
    ELSE IF u \in s.p.counts THEN [k |-> "stop", send |-> ~s.p.err]
    ELSE IF s.p.ph = "sdc" /\ u \in s.p.need THEN [k |-> "startdc", sks |-> s.p.keys]
    ELSE IF s.p.ph = "ssk" /\ u \in s.p.need THEN [k |-> "startsk", shares |-> s.p.shares[u]]
    ELSE [k |-> "checkin"]

\* it is asked on connection c
Asked(s, u, c, q) ==
    IF ~Running(s) THEN s
    ELSE CASE q.k \in {"startdc", "startsk"} -> [s EXCEPT !.p.req = Put(@, u, c)]
           [] q.k = "stop" -> [s EXCEPT !.p.sreq = @ \cup {<<u, c>>}]
           [] OTHER -> s
\* a reply of u on connection c counts only if it answers this round's latest
\* start request to u (an earlier one was lost, or u has restarted and its
\* earlier shares are void), or one of this round's stop requests to u;
\* sh: sk -> share
StartReply(s, u, c, ok, sh) ==
    IF ~Running(s) \/ u \notin DOMAIN s.p.req THEN s
    ELSE IF ~ok \/ s.p.req[u] # c \/ u \notin s.p.need THEN s
    ELSE IF s.p.ph = "sdc" THEN
        IF DOMAIN sh # s.p.sks THEN s
        ELSE LET q == [s.p EXCEPT !.need = @ \ {u}, !.shares = [k \in s.p.sks |-> Put(@[k], u, sh[k])]]
             IN [s EXCEPT !.p = IF q.need = {} THEN [q EXCEPT !.ph = "ssk", !.need = q.sks] ELSE q]
    ELSE IF s.p.ph = "ssk" THEN
        LET q == [s.p EXCEPT !.need = @ \ {u}] IN [s EXCEPT !.p = IF q.need = {} THEN [q EXCEPT !.ph = "run"] ELSE q]
    ELSE s
\* counts: kind in none, empty, good, odd (not the counters of the round)
StopReply(s, u, c, ok, kind, val) ==
    IF ~ok \/ ~Running(s) THEN s
    ELSE IF <<u, c>> \notin s.p.sreq \/ u \notin s.p.counts THEN s
    ELSE [s EXCEPT !.p.counts = @ \ {u},
                   !.p.err = @ \/ kind \in {"none", "empty"},
                   !.p.final = IF kind \in {"good", "odd"} /\ ~s.p.err THEN Put(@, u, [kind |-> kind, val |-> val]) ELSE @]

----------------------------------------------------------------------------
Reload(s) == IF s.good THEN [s EXCEPT !.cfg = s.file] ELSE s
Dead(s, t) == {u \in DOMAIN s.cl : t - s.cl[u].alive > 7 * s.cfg.checkin + s.cl[u].rtt + s.cfg.jit}
Bury(s, t) == [s EXCEPT !.cl = [u \in DOMAIN s.cl \ Dead(s, t) |-> s.cl[u]]]

MaxRtt(s) == MaxOf({s.cfg.jit} \cup {s.cl[u].rtt + s.cfg.jit : u \in DOMAIN s.cl})
DelayOver(s, t) == Permitted(s.d, s.cfg, s.cfg.alloc, MaxRtt(s), t)
CanStart(s, t) ==
    /\ ~Running(s)
    /\ s.cfg.cont = -1 \/ s.done < s.cfg.cont
    /\ Cardinality(Who(s, "dc", "idle")) >= s.cfg.dcth
    /\ Cardinality(Who(s, "sk", "idle")) >= s.cfg.skth
    /\ DelayOver(s, t)
    /\ t >= s.cfg.after
Begin(s, t) ==
    LET dcs == Who(s, "dc", "idle")
        sks == Who(s, "sk", "idle")
    IN [s EXCEPT !.rounds = @ + 1,
                 !.p = [ph |-> "sdc", dcs |-> dcs, sks |-> sks, start |-> t, stop |-> 0,
                        pad |-> MaxOf({s.cl[u].rtt + s.cl[u].skew : u \in dcs \cup sks}) + s.cfg.checkin,
                        cfg |-> s.cfg, keys |-> [u \in sks |-> s.cl[u].key], need |-> dcs,
                        shares |-> [u \in sks |-> << >>], counts |-> {}, final |-> << >>, err |-> FALSE,
                        req |-> << >>, sreq |-> {}]]

Over(s, t) == s.p.err \/ t - s.p.start >= s.p.cfg.period
Tallied(p) == ~p.err /\ \A u \in DOMAIN p.final : p.final[u].kind = "good"
Finish(s, t) ==
    [s EXCEPT !.done = @ + 1, !.p = NoPhase,
              !.d = IF s.p.err THEN @ ELSE Ended(@, s.cfg, s.p.cfg.alloc, t),
              !.out = Append(@, [begin |-> s.p.start, end |-> s.p.stop, tally |-> Tallied(s.p), final |-> s.p.final, alloc |-> s.p.cfg.alloc,
                                 dcs |-> s.p.dcs, sks |-> s.p.sks, cl |-> s.cl])]
WindUp(s, t) ==
    IF s.p.ph # "stop"
    THEN [s EXCEPT !.p.ph = "stop", !.p.stop = t, !.p.counts = Members(s.p), !.p.err = s.p.ph = "sdc"]
    ELSE IF s.p.counts = {} THEN Finish(s, t) ELSE s

\* one pass of the main loop, at t
Tick(s0, t) ==
    LET s == Bury(Reload(s0), t) IN
    [(IF ~Running(s) THEN IF CanStart(s, t) THEN Begin(s, t) ELSE s
      ELSE IF Over(s, t) THEN WindUp(s, t) ELSE s) EXCEPT !.next = t + s.step]
RECURSIVE Wait(_, _)
Wait(s, t) == IF s.next > t THEN s ELSE Wait(Tick(s, s.next), t)
=============================================================================
