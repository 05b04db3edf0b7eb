------------------------------ MODULE RoundGen ------------------------------
(* Behaviours of RoundMC, as scenarios for whole deployments of real nodes *)
EXTENDS RoundMC
CONSTANT Depth
VARIABLE acts
Act(a) == acts' = Append(acts, a)
GInit == RInit /\ acts = << >>
\* a node has one connection: nothing is asked while a reply is on its way
GVisit(u) == /\ \A m \in net : m.u # u
             /\ Visit(u) /\ Act([a |-> "visit", u |-> u, lost |-> faults' > faults])
Tells == {x \in DCs \cup SKs : Ask(Report(s, x, Says(x), now), x).k # "checkin"}
GNext == \/ /\ \/ \E u \in DCs \cup SKs : now % 3 = 0 /\ GVisit(u)
               \/ \E u \in Tells : GVisit(u)
               \/ \E u \in DCs \cup SKs : now % 4 = 3 /\ Restart(u) /\ Act([a |-> "crash", u |-> u])
               \/ \E m \in net : Deliver(m) /\ faults' = faults /\ Act([a |-> "deliver", u |-> m.u])
               \/ \E m \in net : now % 2 = 1 /\ Lose(m) /\ Act([a |-> "lose", u |-> m.u])
               \/ \E d \in Waits : (Tells = {} \/ now % 5 = 2) /\ Pass(d) /\ Act([a |-> "tick", d |-> 5 * d])
            /\ counts' = IF joins' > joins THEN Append(counts, 0) ELSE counts
            /\ led' = Seen
         \/ \E d \in DCs : Event(d) /\ Act([a |-> "event", u |-> d, b |-> counts[own[d].j] % 3])
GSpec == GInit /\ [][GNext]_<<rvars, acts>>
GenStop == Len(acts) < Depth
GenPrint == Len(acts) = Depth => PrintT(<<"SCN", ToJson(acts)>>)
=============================================================================
