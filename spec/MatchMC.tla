------------------------------- MODULE MatchMC -------------------------------
(* Two machines.  (1) Lists are prepared one item at a time: exact lists lose
   what an earlier list has, suffixes go into one tree, in which a shorter suffix
   takes the place of longer ones and a longer one is dropped.  (2) The operator
   edits the lists, the server reads them again and prepares them, unless they
   are the ones it prepared before. *)
EXTENDS Match, TLC, Json
CONSTANTS Labels, Depth, MaxLists, MaxItems, Reuse
VARIABLES lists, n, i, tree, ex
vars == <<lists, n, i, tree, ex>>

Domains == UNION {[1..d -> Labels] : d \in 1..Depth}
Probes == Domains \cup [1..(Depth + 1) -> Labels]
OneList == UNION {{q \in [1..m -> Domains] : \A a, b \in 1..m : a # b => q[a] # q[b]} : m \in 1..MaxItems}
AllLists == UNION {[1..m -> OneList] : m \in 1..MaxLists}

\* ------------------------------------------------------------- preparing
Insert(t, s, tag) ==
    IF \E e \in t : IsSuffix(e.s, s) THEN t
    ELSE {e \in t : ~IsSuffix(s, e.s)} \cup {[s |-> s, tag |-> tag]}
TreeClass(t, x, none) == IF \E e \in t : IsSuffix(e.s, x) THEN (CHOOSE e \in t : IsSuffix(e.s, x)).tag ELSE none
Init == lists \in AllLists /\ n = 1 /\ i = 1 /\ tree = {} /\ ex = <<Ran(lists[1])>>
Next == /\ n <= Len(lists)
        /\ tree' = Insert(tree, lists[n][i], n - 1)
        /\ IF i < Len(lists[n]) THEN i' = i + 1 /\ UNCHANGED <<n, ex>>
           ELSE /\ i' = 1 /\ n' = n + 1
                /\ ex' = IF n < Len(lists) THEN Append(ex, Ran(lists[n + 1]) \ UNION Ran(ex)) ELSE ex
        /\ UNCHANGED lists
Spec == Init /\ [][Next]_vars

\* what has been read so far
SoFar == [m \in 1..Len(lists) |-> IF m < n THEN lists[m] ELSE IF m = n THEN SubSeq(lists[m], 1, i - 1) ELSE <<>>]
Antichain == \A a, b \in tree : a # b => ~IsSuffix(a.s, b.s)
TreeRight == \A x \in Probes : TreeClass(tree, x, Len(lists)) = SuffixClass(SoFar, x)
Disjoint == \A a, b \in 1..Len(ex) : a # b => ex[a] \cap ex[b] = {}
Done == n > Len(lists)
ExactRight == Done => \A x \in Probes :
    ExactClass(lists, x) = IF \E a \in 1..Len(ex) : x \in ex[a] THEN (CHOOSE a \in 1..Len(ex) : x \in ex[a]) - 1 ELSE Len(lists)
\* looking every item up again finds the overlaps, all of them and no others
Refuses == Done => (SuffixOverlap(lists) <=> \E a \in 1..Len(lists) : \E s \in Ran(lists[a]) : TreeClass(tree, s, Len(lists)) # a - 1)
RefusesExact == Done => (Overlap(lists) <=> \E a \in 1..Len(lists) : ~(Ran(lists[a]) \subseteq ex[a]))
\* every value is in one class
OneClass == Done => \A x \in Probes : SuffixClass(lists, x) \in 0..Len(lists)
\* an exact match is a suffix match
ExactIsSuffix == Done => \A x \in Probes : ExactClass(lists, x) # Len(lists) => SuffixClass(lists, x) # Len(lists)
NeverPruned == ~(Done /\ Cardinality(tree) < Cardinality(UNION {Ran(lists[a]) : a \in 1..Len(lists)}))

\* ------------------------------------------------------------- reading again
\* lists: in the files; ex: in force; tree: what was prepared.  A list is known by its content here.
Prepared(q) == [m \in 1..Len(q) |-> Ran(q[m]) \ UNION {Ran(q[a]) : a \in 1..(m - 1)}]
Same(new, old) == IF Reuse = "equal" THEN new = old ELSE Ran(new) \subseteq Ran(old)
RInit == lists \in AllLists /\ ~Overlap(lists) /\ ex = lists /\ tree = Prepared(lists) /\ n = 0 /\ i = 0
Edit == lists' \in AllLists /\ n' = 1 /\ UNCHANGED <<ex, tree, i>> /\ n = 0
Refresh == /\ n = 1 /\ n' = 0 /\ UNCHANGED <<lists, i>>
           /\ IF Overlap(lists) THEN UNCHANGED <<ex, tree>>
              ELSE ex' = lists /\ tree' = IF Same(lists, ex) THEN tree ELSE Prepared(lists)
RSpec == RInit /\ [][Edit \/ Refresh]_vars
InForce == tree = Prepared(ex)

\* ------------------------------------------------------------- collections of lists for the conformance run
GInit == Init
GNext == UNCHANGED vars /\ FALSE
GSpec == GInit /\ [][GNext]_vars
Emit == PrintT(<<"SCN", ToJson([lists |-> lists])>>)
=============================================================================
