------------------------------ MODULE NodeTrace ------------------------------
(* Monitor: what a real node answered, against Node.                         *)
EXTENDS Node, Sequences, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad
vars == <<l, st, bad>>
\* st.seen: blinding secrets seen so far;  st.past: a round's counts have left
Empty == [n |-> NewNode("sk", [delay |-> 0, always |-> FALSE, tol |-> 0]), scn |-> "", skip |-> FALSE,
          seen |-> {}, past |-> FALSE, sent |-> FALSE, event |-> << >>]

Range(f) == {f[i] : i \in DOMAIN f}
V(c, p, clause) == IF c THEN {<<p, clause>>} ELSE {}

StartCheck(s, r) ==
    LET n == Wait(s.n, r.t)
        why == Refusals(n, r.q, r.t)
        m == Start(n, r.q, r.t)
        blame == IF "delay" \in why THEN "C07" ELSE IF "sks" \in why THEN "C06" ELSE IF "config" \in why THEN "C15"
                 ELSE IF "share" \in why THEN "C05" ELSE "C04"
        H == UNION {Range(r.shares[u].hash) : u \in DOMAIN r.shares}
        K == DOMAIN r.shares
    IN [s |-> [s EXCEPT !.n = m, !.seen = @ \cup H],
        v |-> IF r.exit THEN {<<IF "sks" \in why THEN "C06" ELSE "C04", "died-at-start">>}
              ELSE IF r.ok /\ why # {} THEN {<<blame, "accepted-despite-" \o (CHOOSE w \in why : "delay" \in why => w = "delay")>>}
              ELSE IF ~r.ok /\ why = {} THEN {<<"C04", "refused-good-start">>} \cup V(s.past, "C07", "refused-good-start")
              ELSE IF ~r.ok /\ ~r.fail THEN {<<"C04", "no-answer">>}
              ELSE IF ~r.ok \/ s.n.kind = "sk" THEN {}
              ELSE V(K # DOMAIN r.offered, "C06", "shares-not-for-the-share-keepers")
                   \cup V(\E u \in K \cap DOMAIN r.offered : Range(r.shares[u].opened) # {r.offered[u]}, "C06", "share-readable-by-others")
                   \cup V(H \cap s.seen # {} \/ Cardinality(H) # Cardinality(K), "C06", "blinding-reused")]

RECURSIVE Pow3(_)
Pow3(k) == IF k = 0 THEN 1 ELSE 3 * Pow3(k - 1)
\* every bin carries the true count and one noise sample of its own
Bins(r) == {<<c, i>> : c \in DOMAIN r.noise, i \in 1..3}
Draw(n, r, b) == LET c == b[1] x == r.noise[c][b[2]] - r.true[c][b[2]] s == n.r.alloc[c] * Weight(n) IN
    IF \E k \in 0..8 : x = Pow3(k) * s THEN CHOOSE k \in 0..8 : x = Pow3(k) * s ELSE -1
NoiseOk(n, r) == LET B == {b \in Bins(r) : b[2] <= Len(r.noise[b[1]])} IN
    /\ \A b \in B : Weight(n) = 0 \/ Draw(n, r, b) >= 0
    /\ Weight(n) > 0 => \A a, b \in B : a # b => Draw(n, r, a) # Draw(n, r, b)

StopCheck(s, r) ==
    LET n == Wait(s.n, r.t)
        sends == Sends(n, r.send)
    IN [s |-> [s EXCEPT !.n = Stop(s.n, r.send, r.t), !.past = @ \/ sends],
        v |-> IF r.exit \/ ~r.ok THEN {<<"C04", "no-answer-to-stop">>}
              ELSE IF r.counts /\ ~r.send THEN {<<"C04", "counts-not-asked-for">>}
              ELSE IF r.counts /\ ~Joined(n) THEN {<<"C04", "counts-sent-again">>}
              ELSE IF r.counts /\ ~Counting(n) /\ ~n.r.dead THEN {<<"C27", "counts-before-counting">>}
              ELSE IF r.counts /\ ~sends THEN {<<"C05", "counts-without-noise-weight">>}
              ELSE IF ~r.counts /\ sends THEN {<<"C04", "counts-missing">>}
              ELSE IF ~r.counts THEN {}
              ELSE IF ~r.shape THEN {<<"C04", "counts-of-another-round">>}
              ELSE IF n.kind = "sk"
                   THEN V(\E c \in DOMAIN r.noise : Range(r.noise[c]) # {0}, "C05", "blinding-not-removed")
              ELSE V(~NoiseOk(n, r), "C05", "noise-not-added-once") \cup V(r.alone, "C06", "counts-readable-without-all-share-keepers")]

After(s, r, c) == IF c.v # {} THEN c.v
    ELSE V(r.leak, "C04", "counts-in-another-message")
         \cup V(r.exit, "C04", "died")
         \cup V(~r.exit /\ r.state # State(c.s.n), "C04", "wrong-state")
         \cup V(~r.exit /\ r.ctl \notin Controls(c.s.n), "C27",
                IF "none" \in Controls(c.s.n) THEN "control-connection-while-not-counting" ELSE "not-counting-when-due")

Step(s, r) ==
    CASE r.e = "start" -> StartCheck(s, r)
      [] r.e = "stop" -> StopCheck(s, r)
      [] r.e = "wait" -> [v |-> {}, s |-> [s EXCEPT !.n = Wait(@, r.t)]]
      [] r.e = "tor" ->
            LET n == Wait(s.n, r.t) IN
            [v |-> V(r.conn /\ ~Counting(n), "C27", "control-connection-while-not-counting")
                   \cup V(~r.conn /\ Counting(n) /\ n.r.link # "up", "C27", "control-connection-not-made-again"),
             s |-> IF r.conn THEN [s EXCEPT !.n = Tor(n, r.f)] ELSE [s EXCEPT !.n = n]]
      [] r.e = "refuse" -> [v |-> {}, s |-> IF r.conn THEN [s EXCEPT !.n = Refuse(Wait(@, r.t))] ELSE s]
      [] r.e = "drop" -> [v |-> {}, s |-> [s EXCEPT !.n = Drop(@)]]
      [] r.e = "event" -> [v |-> {}, s |-> s]
      [] OTHER -> [v |-> {<<"C04", "unknown-event">>}, s |-> s]
Check(s, r) ==
    CASE r.e = "reset" -> [v |-> {}, s |-> [Empty EXCEPT !.scn = r.scn, !.n = NewNode(r.kind, r.cfg)]]
      [] s.skip -> [v |-> {}, s |-> s]
      [] OTHER -> LET c == Step(s, r) IN [v |-> After(s, r, c), s |-> c.s]

Init == l = 1 /\ st = Empty /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET r == Check(st, Trace[l]) IN
           /\ st' = IF r.v = {} THEN r.s ELSE [r.s EXCEPT !.skip = TRUE]
           /\ \A b \in r.v : PrintT("BAD|" \o b[1] \o "|" \o st'.scn \o "|" \o ToString(l) \o "|" \o b[2])
           /\ bad' = bad + Cardinality(r.v)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => PrintT("DONE|" \o ToString(l))
Spec == Init /\ [][Next]_vars
=============================================================================
