------------------------------ MODULE ConfigMC ------------------------------
(* What the rules of Config are for: under an accepted configuration every value
   is counted in at most one bin, every bin can count something, and the noise
   weights of a round stay within the range of a count whichever data collectors
   take part.                                                               *)
EXTENDS Config, TLC
CONSTANTS MaxV, NBins
N(v) == [t |-> "n", v |-> v]
Bounds == {N(v) : v \in 0..MaxV} \cup {[t |-> "inf"], [t |-> "ninf"], [t |-> "nan"], [t |-> "other"]}
VARIABLES bs, ws, th
vars == <<bs, ws, th>>
L(x) == [t |-> "list", s |-> x]
Whole(a, b) == L(<<a, b>>)
\* values probe the bounds and the gaps between them: doubled coordinates
Vals == (-1)..(2 * MaxV + 1)
InBin(v, b) == /\ (b.s[1].t = "ninf" \/ (Finite(b.s[1]) /\ 2 * b.s[1].v <= v))
               /\ (b.s[2].t = "inf" \/ (Finite(b.s[2]) /\ v < 2 * b.s[2].v))
W(u, m) == [t |-> "w", u |-> u, m |-> m]
WVals == {W(-1, 0), W(0, 0), W(1, 0), W(255, 0), W(256, -1), W(256, 0), W(512, -1), W(512, 0), [t |-> "nan"]}
WNames == {"*", "A", "B"}
Init == /\ bs \in UNION {[1..k -> {Whole(a, b) : a \in Bounds, b \in Bounds}] : k \in 0..NBins}
        /\ ws = <<>> /\ th = 0
InitW == /\ bs = <<>> /\ ws \in UNION {[S -> WVals] : S \in SUBSET WNames} /\ th \in -1..4
Next == UNCHANGED vars
SpecB == Init /\ [][Next]_vars
SpecW == InitW /\ [][Next]_vars

OneBin == BinsOk(L(bs)) =>
    /\ \A v \in Vals : Cardinality({i \in DOMAIN bs : InBin(v, bs[i])}) <= 1
    /\ \A i \in DOMAIN bs : \E v \in Vals : InBin(v, bs[i])
\* and nothing good is refused: bins that could not count twice are accepted
Complete == (/\ Len(bs) > 0
             /\ \A i \in DOMAIN bs : Number(bs[i].s[1]) /\ Number(bs[i].s[2]) /\ \E v \in Vals : InBin(v, bs[i])
             /\ \A v \in Vals : Cardinality({i \in DOMAIN bs : InBin(v, bs[i])}) <= 1) => BinsOk(L(bs))

WeightOf(r, n) == IF n \in DOMAIN ws THEN ws[n] ELSE ws["*"]
\* any "threshold" of relays: named ones, and others that use the default
WeightsFit == WeightsOkFor([t |-> "dict", d |-> ws], th) =>
    \A S \in SUBSET (DOMAIN ws \ {"*"}) : \A k \in 0..(IF "*" \in DOMAIN ws THEN th ELSE 0) :
       LET t == TotalOf(ws, S)
           d == IF "*" \in DOMAIN ws THEN ws["*"] ELSE [u |-> 0, m |-> 0] IN
       Small([u |-> t.u + k * d.u, m |-> t.m + k * d.m])
WeightsVac == \E w \in {ws} : ~WeightsOkFor([t |-> "dict", d |-> w], th) \/ Cardinality(DOMAIN w) < 3
BinsVac == ~BinsOk(L(bs)) \/ Len(bs) < 2
=============================================================================
