----------------------------- MODULE EventsRotMC -----------------------------
(***************************************************************************)
(* Clients of the relay, counted once in every period in which they had a  *)
(* circuit.  The counts the machine of Events keeps up are those of the    *)
(* whole history, looked at afterwards.                                    *)
(***************************************************************************)
EXTENDS Events
CONSTANTS Period, MaxT, MaxE, Ages
VARIABLES s, now, log
vars == <<s, now, log>>

Ips == {"4:1", "4:2"}
Names == {"EntryClientIPCount", "EntryActiveClientIPCount", "EntryInactiveClientIPCount",
          "EntryClientIPActiveCircuitHistogram", "EntryClientIPInactiveCircuitHistogram"}
Bins(c) == IF c \in {"EntryClientIPActiveCircuitHistogram", "EntryClientIPInactiveCircuitHistogram"}
           THEN <<<<0, 1, 0>>, <<1, 2, 0>>, <<2, Top, 0>>>> ELSE <<<<0, Top, 0>>>>
It(k, t, v) == [k |-> k, t |-> t, v |-> v, n |-> 1, m |-> 1]
N(k, v) == It(k, "int", v)
Items(ip, age, act) ==
    <<N("EventTimestamp", now), N("CreatedTimestamp", now - age), N("IsLegacyCircuitEndEventFlag", 1), It("StateString", "str", "open"),
      N("PurposeCode", 5), N("IsEntryFlag", 1), N("PreviousChannelId", 1), N("PreviousCircuitId", 1), N("InboundExitByteCount", 0), N("OutboundExitByteCount", 0),
      N("InboundReceivedCellCount", IF act THEN 8 ELSE 7), It("PreviousNodeIPAddress", "ip", ip)>>

Init == s = NewRound([c \in Names |-> Bins(c)], 10 * MaxT, 10 * Period) /\ now = MaxT /\ log = << >>
Circuit(ip, age, act) ==
    /\ Len(log) < MaxE
    /\ s' = Event(s, "CIRCUIT_CLOSE", Items(ip, age, act), << >>)
    /\ log' = Append(log, [t |-> now - MaxT, ip |-> ip, born |-> now - age - MaxT, act |-> act])
    /\ UNCHANGED now
Wait == /\ now < 2 * MaxT /\ now' = now + 1 /\ s' = Pass(s, 10 * (now + 1)) /\ UNCHANGED log
Next == Wait \/ \E ip \in Ips, age \in Ages, act \in BOOLEAN : Circuit(ip, age, act)
Spec == Init /\ [][Next]_vars

(* the counts, from the history *)
Es == {log[i] : i \in 1..Len(log)}
Done == (now - MaxT) \div Period            \* rotations so far
In(x, w) == x.t >= (w - 1) * Period /\ x.t < w * Period
\* circuits that had already been there in period w
Across(x, w) == In(x, w + 1) /\ x.born < w * Period
Seen(w) == {ip \in Ips : \E x \in Es : x.ip = ip /\ (In(x, w) \/ Across(x, w))}
ActiveIn(w) == {ip \in Ips : \E x \in Es : x.ip = ip /\ x.act /\ (In(x, w) \/ Across(x, w))}
Many(ip, w, act) == Cardinality({i \in 1..Len(log) : log[i].ip = ip /\ In(log[i], w) /\ log[i].act = act})
\* a period is counted at the end of the next one; period 0 is the time before the round
RECURSIVE Over(_, _)
Over(F(_), w) == IF w < 0 THEN 0 ELSE F(w) + Over(F, w - 1)
Count(c) == s.tot[c][1][3]
Hist(act, lo, hi) == Over(LAMBDA w : Cardinality({ip \in Seen(w) : Many(ip, w, act) >= lo /\ Many(ip, w, act) < hi}), Done - 1)
Counts ==
    /\ Count("EntryClientIPCount") = Over(LAMBDA w : Cardinality(Seen(w)), Done - 1)
    /\ Count("EntryActiveClientIPCount") = Over(LAMBDA w : Cardinality(ActiveIn(w)), Done - 1)
    /\ Count("EntryInactiveClientIPCount") = Over(LAMBDA w : Cardinality(Seen(w) \ ActiveIn(w)), Done - 1)
    /\ \A b \in 1..3 : LET lo == b - 1  hi == IF b = 3 THEN 100 ELSE b IN
         /\ s.tot["EntryClientIPActiveCircuitHistogram"][b][3] = Hist(TRUE, lo, hi)
         /\ s.tot["EntryClientIPInactiveCircuitHistogram"][b][3] = Hist(FALSE, lo, hi)
\* the addresses kept are those of two periods at most
Forgets == /\ DOMAIN s.prev \subseteq Seen(Done) /\ DOMAIN s.cur \subseteq Seen(Done + 1)
=============================================================================
