------------------------------- MODULE Round -------------------------------
(* What every data collector has counted, and what a round must publish.

   The ledger is kept from what can be seen from outside: the requests and
   replies that the nodes send, and the events that the relays report.        *)
EXTENDS Integers, Sequences, FiniteSets, Functions

\* asked: the data collectors the tally server has asked to start this round
\* cur: what a data collector holds (noise and counts), since it joined
\* given: what it has handed over, since it was asked
NewLedger == [asked |-> {}, cur |-> << >>, given |-> << >>]
Drop(f, d) == Restrict(f, DOMAIN f \ {d})
With(f, d, v) == [x \in DOMAIN f \cup {d} |-> IF x = d THEN v ELSE f[x]]
Plus(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]

Asks(l, d)      == IF d \in l.asked THEN l ELSE [l EXCEPT !.asked = @ \cup {d}, !.given = Drop(@, d)]
Joins(l, d, v)  == [l EXCEPT !.cur = With(@, d, v)]
Sees(l, d, v)   == IF d \in DOMAIN l.cur THEN [l EXCEPT !.cur[d] = Plus(@, v)] ELSE l
Gives(l, d)     == IF d \in DOMAIN l.cur THEN [l EXCEPT !.given = With(@, d, l.cur[d]), !.cur = Drop(@, d)] ELSE l
Forgets(l, d)   == [l EXCEPT !.cur = Drop(@, d)]
Ends(l)         == [l EXCEPT !.asked = {}, !.given = << >>]

Ready(l) == l.asked # {} /\ l.asked \subseteq DOMAIN l.given
RECURSIVE Sum(_, _, _)
Sum(f, S, z) == IF S = {} THEN z ELSE LET d == CHOOSE d \in S : TRUE IN Plus(f[d], Sum(f, S \ {d}, z))
Total(l, z) == Sum(l.given, l.asked, z)
=============================================================================
