------------------------------ MODULE TallyGen ------------------------------
(* Behaviours of TallyMC, as scenarios to replay against the real tally server *)
EXTENDS TallyMC
CONSTANT Depth
VARIABLE acts
Act(a) == acts' = Append(acts, a)
Conn(u) == CHOOSE c \in 1..(MaxNet + 1) : \A m \in net : m.u = u => m.c # c
GInit == Init /\ acts = << >>
Pick(S) == {RandomElement({x \in S : now >= 0})}
GVisit(u) == Visit(u) /\ Act([a |-> "visit", u |-> u, c |-> Conn(u), lost |-> faults' > faults])
GNext == \/ \E u \in Nodes : GVisit(u)
         \/ \E u \in {x \in Nodes : Ask(Report(s, x, Says(x), now), x).k # "checkin"} : GVisit(u)
         \/ \E u \in Nodes : Restart(u) /\ now % 3 = 0 /\ Act([a |-> "restart", u |-> u])
         \/ \E m \in net : Deliver(m) /\ Act([a |-> "deliver", u |-> m.u, c |-> m.c, again |-> m \in net'])
         \/ \E m \in net : Lose(m) /\ Act([a |-> "lose", u |-> m.u, c |-> m.c])
         \/ \E d \in Waits : Pass(d) /\ Act([a |-> "wait", d |-> 10 * d])
         \/ \E f \in {"Fewer", "Less", "Later", "Bad"} :
               /\ Changes /\ now % 4 = 1 /\ Fault
               /\ s' = (CASE f = "Fewer" -> [s EXCEPT !.file = Fewer] [] f = "Less" -> [s EXCEPT !.file = Less]
                          [] f = "Later" -> [s EXCEPT !.file = Later] [] OTHER -> s)
               /\ UNCHANGED <<now, own, net, joins>> /\ asked' = [a |-> "change"]
               /\ Act([a |-> "change", f |-> f])
GSpec == GInit /\ [][GNext]_<<vars, acts>>
GenStop == Len(acts) < Depth
GenPrint == Len(acts) = Depth => PrintT(<<"SCN", ToJson(acts)>>)
=============================================================================
