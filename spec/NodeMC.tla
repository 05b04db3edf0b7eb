------------------------------- MODULE NodeMC -------------------------------
(* A node under an arbitrary tally server: every order of start and stop
   requests, waits and control connections.  The properties are stated over the
   history of what the node answered, not over its state.                    *)
EXTENDS Node, Sequences, Json
CONSTANTS Kind, Always, Delay, Defers, MaxT, MaxRounds, Waits, Depth, Gen, Chain

A1 == [c1 |-> 8, c2 |-> 8]
Allocs == [A |-> A1, B |-> [A1 EXCEPT !.c1 = 7], C |-> [A1 EXCEPT !.c1 = 6], D |-> [A1 EXCEPT !.c1 = 5],
           E |-> [A1 EXCEPT !.c1 = 12], F |-> [c1 |-> 8], G |-> [c1 |-> 8, c2 |-> 8, c3 |-> 8],
           H |-> [A1 EXCEPT !.c2 = 5, !.c1 = 20]]
Cfg == [delay |-> Delay, always |-> Always, tol |-> 2]
Qs == {[valid |-> v, sks |-> s, alloc |-> a, defer |-> f, dflt |-> w[1], own |-> w[2], badshare |-> b] :
        v \in BOOLEAN, s \in {"exact", "missing", "extra", "other", "twice", "all-twice", "none"},
        a \in DOMAIN Allocs, f \in Defers, w \in {<<2, -1>>, <<2, 3>>, <<-1, 3>>, <<-1, -1>>}, b \in BOOLEAN}
\* at most one thing wrong with a request; weights vary with the first allocation only
Wrongs(q) == (IF q.valid THEN 0 ELSE 1) + (IF q.sks = "exact" THEN 0 ELSE 1) + (IF q.badshare THEN 1 ELSE 0)
Plain(q) == (Kind = "dc" => ~q.badshare) /\ (Kind = "sk" => q.sks = "exact" /\ q.defer = 0 /\ q.dflt = 2 /\ q.own = -1)
Requests == {q \in Qs : /\ Plain(q) /\ Wrongs(q) <= 1
                        /\ (Wrongs(q) = 1 => q.alloc \in {"A", "D"} /\ q.defer = 0 /\ q.dflt = 2 /\ q.own = -1)
                        /\ (q.alloc # "A" => q.dflt = 2 /\ q.own = -1 /\ q.defer = 0)}
Real(q) == [q EXCEPT !.alloc = Allocs[q.alloc]]

VARIABLES n, now, done, acts, asked
vars == <<n, now, done, asked>>
view == <<n, now, done>>
\* done: the rounds whose counts left the node; asked: the last step, for the action properties
Init == n = NewNode(Kind, Cfg) /\ now = 1 /\ done = <<>> /\ acts = <<>> /\ asked = [a |-> "none"]
Act(a) == acts' = IF Gen THEN Append(acts, a) ELSE acts
Good == {q \in Requests : Wrongs(q) = 0}
Some(S) == IF Gen THEN {RandomElement({x \in S : now >= 0})} ELSE S
\* Chain: whole rounds one after another
Calm == {q \in Good : q.defer = 0 /\ q.dflt = 2 /\ q.alloc \in {"A", "B", "C", "D", "E", "H"}}
DoStart == \E q \in (IF Chain THEN Some(Calm) \cup Some(Calm) ELSE Some(Good) \cup Some(Requests)) :
    /\ Chain => ~Joined(n)
    /\ n' = Start(n, Real(q), now)
    /\ asked' = [a |-> "start", acc |-> Refusals(n, Real(q), now) = {}, alloc |-> Real(q).alloc, exact |-> q.sks = "exact", was |-> Joined(n)]
    /\ Act([a |-> "start", q |-> Real(q)])
    /\ UNCHANGED <<now, done>>
DoStop == \E send \in (IF Chain THEN {TRUE} ELSE BOOLEAN) :
    /\ Chain => Joined(n)
    /\ now < MaxT
    /\ Len(done) < MaxRounds
    /\ now' = now + 1
    /\ n' = Stop(n, send, now + 1)
    /\ done' = IF Sends(Wait(n, now + 1), send) THEN Append(done, [alloc |-> n.r.alloc, start |-> n.r.start, end |-> now + 1]) ELSE done
    /\ asked' = [a |-> "stop", send |-> send, sent |-> Sends(Wait(n, now + 1), send), was |-> Joined(n), due |-> n.r.due]
    /\ Act([a |-> "stop", send |-> send])
DoWait == \E k \in Some(Waits) :
    /\ now + k <= MaxT
    /\ (Chain /\ acts # <<>>) => acts[Len(acts)].a # "wait"
    /\ now' = now + k /\ n' = Wait(n, now + k) /\ asked' = [a |-> "wait"]
    /\ Act([a |-> "wait", d |-> k]) /\ UNCHANGED done
DoTor == \E f \in {1, 2} :
         /\ Kind = "dc" /\ Counting(n) /\ n.r.link # "up"
         /\ (n.r.fp # 0 => Gen)
         /\ n' = Tor(n, f) /\ asked' = [a |-> "tor"] /\ Act([a |-> "tor", f |-> f]) /\ UNCHANGED <<now, done>>
DoDrop == /\ Gen /\ Kind = "dc" /\ Counting(n) /\ n.r.link = "up" /\ now % 2 = 0
          /\ n' = Drop(n) /\ asked' = [a |-> "drop"] /\ Act([a |-> "drop"]) /\ UNCHANGED <<now, done>>
DoRefuse == /\ Gen /\ Kind = "dc" /\ Counting(n) /\ n.r.link # "up" /\ now % 2 = 1
            /\ n' = Refuse(n) /\ asked' = [a |-> "refuse"] /\ Act([a |-> "refuse"]) /\ UNCHANGED <<now, done>>
\* an event is counted; the state of the model does not record it
DoEvent == /\ Gen /\ Kind = "dc"
           /\ n' = n /\ asked' = [a |-> "event"] /\ Act([a |-> "event", k |-> 1 + (now % 3)]) /\ UNCHANGED <<now, done>>
Next == DoStart \/ DoStop \/ DoWait \/ DoTor \/ DoDrop \/ DoRefuse \/ DoEvent
Spec == Init /\ [][Next]_<<vars, acts>>

----------------------------------------------------------------------------
\* the round that opened the current run of compatible rounds
RECURSIVE Opener(_)
Opener(h) == IF Len(h) = 1 THEN 1
             ELSE LET o == Opener(SubSeq(h, 1, Len(h) - 1)) IN
                  IF ~Always /\ Compatible(h[o].alloc, h[Len(h)].alloc, Cfg.tol) THEN o ELSE Len(h)
\* C07: an accepted round differs only if the delay has passed
Delayed == [][(asked'.a = "start" /\ asked'.acc /\ done # <<>>) =>
    LET last == done[Len(done)]
        op == done[Opener(done)]
        same == DOMAIN asked'.alloc = DOMAIN last.alloc
    IN \/ now >= last.end + Cfg.delay
       \/ /\ ~Always /\ same
          /\ \A c \in DOMAIN last.alloc : asked'.alloc[c] >= op.alloc[c] - Cfg.tol]_vars
\* ... so that noise does not creep down: counts that left within a run of rounds
\* with no delay between them never have less noise than the first of them
NoCreep == \A j \in DOMAIN done : LET o == Opener(SubSeq(done, 1, j)) IN
    \A c \in DOMAIN done[o].alloc : c \in DOMAIN done[j].alloc /\ done[j].alloc[c] >= done[o].alloc[c] - Cfg.tol
RunsApart == \A j \in DOMAIN done : j > 1 /\ Opener(SubSeq(done, 1, j)) = j
                                    => done[j].start >= done[j - 1].end + Cfg.delay
\* C04
Unasked == [][asked'.a = "stop" /\ asked'.sent => asked'.send /\ asked'.was]_vars
IdleAfterStop == [][asked'.a = "stop" => n'.ph = "idle"]_vars
NotEarly == [][asked'.a = "stop" /\ asked'.sent => now' >= asked'.due]_vars
\* C06
Exact == [][Kind = "dc" /\ asked'.a = "start" /\ asked'.acc => asked'.exact]_vars
\* vacuity: a run of three rounds, a refusal for delay
Vac == ~(Len(done) = 3 /\ Opener(done) = 1 /\ done[3].alloc # done[1].alloc)

GenStop == Len(acts) < Depth
GenPrint == Gen => (Len(acts) = Depth => PrintT(<<"SCN", ToJson(acts)>>))
=============================================================================
