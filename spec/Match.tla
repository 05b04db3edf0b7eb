-------------------------------- MODULE Match --------------------------------
(* Match lists: how a value that is found in an event is classified by the lists
   an operator has configured, which collections of lists are refused, and which
   of several versions of the configuration is in force.

   A value of an exact kind (country, AS number, reason) is any value; an onion
   address is [n |-> name], listed as [n |-> name, f |-> "plain" or "md5"]; a
   domain is the sequence of its labels.  Lists are numbered from 0, the class
   of what is in no list is the number of lists. *)
EXTENDS Integers, Sequences, FiniteSets

Ran(q) == {q[i] : i \in 1..Len(q)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

IsSuffix(s, d) == Len(s) <= Len(d) /\ SubSeq(d, Len(d) - Len(s) + 1, Len(d)) = s

-----------------------------------------------------------------------------
\* the class of x
ExactClass(lists, x) ==
    LET in == {i \in 1..Len(lists) : x \in Ran(lists[i])}
    IN IF in = {} THEN Len(lists) ELSE Least(in) - 1
OnionClass(lists, x) ==
    LET in == {i \in 1..Len(lists) : \E y \in Ran(lists[i]) : y.n = x}
    IN IF in = {} THEN Len(lists) ELSE Least(in) - 1
\* the shortest suffix that is listed decides, and the first list that has it
SuffixClass(lists, x) ==
    LET in == {i \in 1..Len(lists) : \E s \in Ran(lists[i]) : IsSuffix(s, x)}
        short == Least({Len(s) : s \in {t \in UNION {Ran(lists[i]) : i \in in} : IsSuffix(t, x)}})
    IN IF in = {} THEN Len(lists)
       ELSE Least({i \in in : \E s \in Ran(lists[i]) : IsSuffix(s, x) /\ Len(s) = short}) - 1

Overlap(lists) == \E i, j \in 1..Len(lists) : i < j /\ Ran(lists[i]) \cap Ran(lists[j]) # {}
SuffixOverlap(lists) == \E i, j \in 1..Len(lists) : i # j /\ \E s \in Ran(lists[i]), t \in Ran(lists[j]) : IsSuffix(s, t)
\* one address in two formats: the lists may be refused or not
OnionCross(lists) == \E i, j \in 1..Len(lists) : i < j /\ \E s \in Ran(lists[i]), t \in Ran(lists[j]) : s.n = t.n

-----------------------------------------------------------------------------
\* the configuration [rej, bad, maps, dom, country, as, store, fetch, fail, onion]
Kinds == {"dom", "country", "as", "store", "fetch", "fail", "onion"}
Valid(c) ==
    /\ ~c.bad                                                   \* every line is well formed, every file is there
    /\ \A k \in Kinds : \A i \in 1..Len(c[k]) : c[k][i] # <<>>
    /\ Ran(c.maps) \in {{}, {4, 6}}
    /\ (c.maps = <<>>) = (c.as = <<>>)
    /\ c.rej => ~SuffixOverlap(c.dom) /\ \A k \in Kinds : ~Overlap(c[k])
Unsure(c) == c.rej /\ OnionCross(c.onion)
=============================================================================
