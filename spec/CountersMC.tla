----------------------------- MODULE CountersMC -----------------------------
(* One counter bin of a round, for every blinding value and every order:
   data collectors blind, count and add noise, share keepers unblind, the tally
   server adds up what arrives.                                              *)
EXTENDS Counters, TLC
CONSTANTS DC, SK, B, K
Incs == {-1, 1}

VARIABLES ctr, share, ks, true, phase
vars == <<ctr, share, ks, true, phase>>
Num == [1..K -> 0..(B - 1)]
None == <<>>

Init == /\ ctr = [d \in DC |-> Zero(K)]
        /\ share = [d \in DC |-> [s \in SK |-> None]]
        /\ ks = [s \in SK |-> [tot |-> Zero(K), done |-> {}]]
        /\ true = [d \in DC |-> 0]
        /\ phase = [d \in DC |-> "new"]

Blind(d) == /\ phase[d] = "new"
            /\ \E f \in [SK -> Num] :
                 /\ share' = [share EXCEPT ![d] = f]
                 /\ ctr' = [ctr EXCEPT ![d] =
                      LET RECURSIVE Sum(_)
                          Sum(S) == IF S = {} THEN Zero(K)
                                    ELSE LET s == CHOOSE s \in S : TRUE IN Add(B, f[s], Sum(S \ {s}))
                      IN Sum(SK)]
            /\ phase' = [phase EXCEPT ![d] = "counting"]
            /\ UNCHANGED <<ks, true>>
\* increments and noise: whole numbers of either sign
Count(d, i) == /\ phase[d] = "counting"
               /\ true[d] + i \in -1..1
               /\ ctr' = [ctr EXCEPT ![d] = Add(B, @, IF i >= 0 THEN [j \in 1..K |-> IF j = 1 THEN i ELSE 0]
                                                     ELSE Neg(B, [j \in 1..K |-> IF j = 1 THEN -i ELSE 0]))]
               /\ true' = [true EXCEPT ![d] = @ + i]
               /\ UNCHANGED <<share, ks, phase>>
Import(s, d) == /\ share[d][s] # None /\ d \notin ks[s].done
                /\ ks' = [ks EXCEPT ![s] = [tot |-> Sub(B, @.tot, share[d][s]), done |-> @.done \cup {d}]]
                /\ UNCHANGED <<ctr, share, true, phase>>
Next == \/ \E d \in DC : Blind(d) \/ \E i \in Incs : Count(d, i)
        \/ \E s \in SK, d \in DC : Import(s, d)
Spec == Init /\ [][Next]_vars

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN Zero(K) ELSE LET s == CHOOSE s \in S : TRUE IN Add(B, f[s], SumOver(f, S \ {s}))
RECURSIVE IntSum(_, _)
IntSum(f, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN f[s] + IntSum(f, S \ {s})
RECURSIVE ToInt(_, _)
ToInt(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + B * ToInt(a, i + 1)
SignedInt(a) == LET r == Signed(B, a) IN IF r.neg THEN -ToInt(r.mag, 1) ELSE ToInt(r.mag, 1)

Complete == /\ \A d \in DC : phase[d] # "new"
            /\ \A s \in SK : ks[s].done = DC
Published == SignedInt(Add(B, SumOver(ctr, DC), SumOver([s \in SK |-> ks[s].tot], SK)))
\* C01, C14: the blinding cancels exactly, and signs are recovered within half the modulus
Cancels == Complete => Published = IntSum(true, DC)
Residues == /\ \A d \in DC : IsResidue(B, K, ctr[d])
            /\ \A s \in SK : IsResidue(B, K, ks[s].tot)

\* C06: whatever all but one of the share keepers know, every value of the
\* counter is as likely as any other: the unknown share determines it one to one
ASSUME \A x, y \in Num : Add(B, x, y) = Add(B, y, x) /\ Add(B, x, Neg(B, x)) = Zero(K)
ASSUME \A x \in Num : {Add(B, x, y) : y \in Num} = Num
ASSUME \A x \in Num : Residue(B, Signed(B, x)) = x

\* C14, C15: disjoint ordered bins count every point at most once, and only such
\* bins do (points at integers and half way between them: 2i and 2i+1)
Pts == 0..4
P(i) == IF i = 4 THEN INF ELSE 2 * i
Probe == (-1..9) \cup {INF, NINF, NAN}
Bins == {<<P(a), P(b)>> : a \in Pts, b \in Pts}
Overlap(b, c) == \E v \in Probe : InBin(b[1], b[2], v) /\ InBin(c[1], c[2], v)
Ordered(b) == b[1] < b[2]
ASSUME \A b \in Bins : (b[1] < b[2]) = (\E v \in Probe \ {INF} : InBin(b[1], b[2], v))
ASSUME \A b, c \in {x \in Bins : Ordered(x)} :
          (b[2] <= c[1] \/ c[2] <= b[1]) = ~(\E v \in Probe \ {INF} : InBin(b[1], b[2], v) /\ InBin(c[1], c[2], v))
=============================================================================
