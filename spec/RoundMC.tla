------------------------------ MODULE RoundMC ------------------------------
(* A whole deployment: the tally server of TallyMC, nodes that blind and count,
   faulty connections, restarts; what is published against the ledger.        *)
EXTENDS TallyMC
R == INSTANCE Round
CONSTANTS MaxEvents, M

VARIABLES counts, led
rvars == <<vars, counts, led>>
rview == <<view, counts, led>>
\* the noise of a join, its blinding value for a share keeper: any fixed numbers
Noise(j) == ((j * 2) % 3) - 1
Index(k) == IF k = CHOOSE x \in SKs : TRUE THEN 1 ELSE 2
Blinding(j, k) == (j * j * 5 + j * 3 * Index(k) + 1) % M

RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})
\* what is handed over
Blinded(j) == (counts[j] + Noise(j) + SumOf([k \in SKs |-> Blinding(j, k)], SKs)) % M
Kept(k, got) == (-SumOf([d \in DOMAIN got |-> Blinding(got[d], k)], DOMAIN got)) % M
Signed(v) == IF v >= (M + 1) \div 2 THEN v - M ELSE v
Value(o) == Signed((SumOf([d \in o.dcs |-> IF o.final[d].val.j = 0 THEN 0 ELSE Blinded(o.final[d].val.j)], o.dcs)
                    + SumOf([k \in o.sks |-> Kept(k, o.final[k].val.got)], o.sks)) % M)

RInit == Init /\ counts = << >> /\ led = R!NewLedger
\* what can be seen of a step
Joiners == {d \in DCs : own'[d].j # 0 /\ own'[d].j # own[d].j}
Leavers == {d \in DCs : own[d].j # 0 /\ own'[d].j = 0}
Seen == LET l1 == IF asked'.a = "ask" /\ asked'.q.k = "startdc" THEN R!Asks(led, asked'.u) ELSE led
            l2 == IF Joiners = {} THEN l1 ELSE LET d == CHOOSE d \in Joiners : TRUE IN R!Joins(l1, d, <<Noise(own'[d].j)>>)
            l3 == IF Leavers = {} THEN l2
                  ELSE LET d == CHOOSE d \in Leavers : TRUE IN
                       IF asked'.a = "ask" /\ asked'.q.send THEN R!Gives(l2, d) ELSE R!Forgets(l2, d)
        IN IF Len(s'.out) > Len(s.out) THEN R!Ends(l3) ELSE l3
Event(d) == /\ own[d].j # 0 /\ counts[own[d].j] < MaxEvents
            /\ counts' = [counts EXCEPT ![own[d].j] = @ + 1]
            /\ led' = R!Sees(led, d, <<1>>)
            /\ UNCHANGED vars
RNext == \/ /\ Next
            /\ counts' = IF joins' > joins THEN Append(counts, 0) ELSE counts
            /\ led' = Seen
         \/ \E d \in DCs : Event(d)
RSpec == RInit /\ [][RNext]_rvars

\* C01, C02: what is published when a round ends is what the data collectors
\* handed over, and only when all of them did
New == s'.out[Len(s'.out)]
Sums == [][Len(s'.out) > Len(s.out) /\ New.tally => R!Ready(led) /\ New.dcs = led.asked /\ <<Value(New)>> = R!Total(led, <<0>>)]_rvars
VacTwo == ~(\E i \in DOMAIN s.out : s.out[i].tally /\ Value(s.out[i]) = 2)
=============================================================================
