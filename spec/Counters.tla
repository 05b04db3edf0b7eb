------------------------------ MODULE Counters ------------------------------
(* Counters: values are counted in bins, counts are kept modulo M and blinded.

   Bounds and values are points on a line: integers, INF and NINF at its ends,
   NAN nowhere on it (the drivers scale reals so that all they use are integers).

   A number modulo M is a sequence of k limbs in 0..B-1, least significant
   first, so M = B^k: tiny in the model checked exhaustively, 2^70 as 5 limbs of
   14 bits in the traces of the implementation.                              *)
EXTENDS Integers, Sequences, FiniteSets

INF  ==  1000000
NINF == -1000000
NAN  ==  2000000

InBin(lo, hi, v) == /\ v # NAN
                    /\ lo <= v
                    /\ v < hi \/ (hi = INF /\ v <= INF)
\* a counter with one bin counts occurrences, whatever the value
Hit(bins, i, v) == IF Len(bins) = 1 THEN InBin(bins[i][1], bins[i][2], 2)
                   ELSE InBin(bins[i][1], bins[i][2], v)

------------------------------------------------------------------------------
Zero(k) == [i \in 1..k |-> 0]
RECURSIVE AddC(_, _, _, _, _)
AddC(B, a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET s == a[i] + b[i] + c IN <<s % B>> \o AddC(B, a, b, i + 1, s \div B)
Add(B, a, b) == AddC(B, a, b, 1, 0)
One(k) == [i \in 1..k |-> IF i = 1 THEN 1 ELSE 0]
Neg(B, a) == Add(B, [i \in 1..Len(a) |-> B - 1 - a[i]], One(Len(a)))
Sub(B, a, b) == Add(B, a, Neg(B, b))
IsResidue(B, k, a) == Len(a) = k /\ \A i \in 1..k : a[i] \in 0..(B - 1)
\* the upper half stands for the negative numbers (B odd only with k = 1)
IsNeg(B, a) == IF B % 2 = 0 THEN a[Len(a)] >= B \div 2 ELSE a[Len(a)] >= (B + 1) \div 2
Signed(B, a) == IF IsNeg(B, a) THEN [neg |-> TRUE, mag |-> Neg(B, a)]
                ELSE [neg |-> FALSE, mag |-> a]
\* a signed number as a residue
Residue(B, s) == IF s.neg THEN Neg(B, s.mag) ELSE s.mag

RECURSIVE SumSeq(_, _, _)
SumSeq(B, k, xs) == IF xs = <<>> THEN Zero(k) ELSE Add(B, Head(xs), SumSeq(B, k, Tail(xs)))
=============================================================================
